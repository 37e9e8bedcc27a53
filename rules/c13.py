"""C13. Every value of type Result in every function of the workspace is followed to what becomes of
it, on the compiler's MIR.  Handing it on (?, map_err, return, storing, passing to a function of the
workspace) keeps the error.  The rule reports a result that is dropped unread, unwrapped or
expected; and where it is reduced to a value (ok, unwrap_or.., is_ok, flattening iterators, a match
whose Err arm can reach a return that is no error) every Result-returning function above is
evaluated under the assumption that this operation failed and must return an error.  Error types
that stand for no failure of an operation are excluded (binary search positions, integer
conversions, which C25 decides, and missing builder options).  The documented exceptions are details
that cannot be decoded, which word_details reports as absent, rows skipped by a dictionary that asks
for it, and malformed text, which decoding replaces by U+FFFD."""
import re
from .common import *
from .c26 import joint
from lintlib import census as cs, assume as asm

ASSUMES = ["encoding_rs replaces malformed sequences (its documented behaviour)"]
HARMLESS = re.compile(r"^(u?int|usize|isize|[ui]\d+|std::convert::Infallible|core::convert::Infallible|std::num::TryFromIntError|core::num::TryFromIntError|std::fmt::Error|core::fmt::Error|!|.*OptionsError|.*OptionsBuilderError|derive_builder.*)$")
REDUCING = {"ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok", "is_err", "is_ok_and", "is_err_and", "iter", "into_iter", "map_or", "map_or_else", "err", "flatten", "or", "or_else", "unwrap_unchecked"}
ASSERTING = {"unwrap", "expect", "unwrap_err", "expect_err", "unwrap_unchecked", "into_ok"}
FLATTENING = {"extend", "chain", "zip", "from_iter", "extend_one", "append"}
RESULT_ITERS = re.compile(r"(Lines<|StringRecordsIter<|StringRecordsIntoIter<|ByteRecordsIter<|DeserializeRecords|io::Bytes<|ReadDir|glob::Paths|io::Split<)")


def harmless(ty):
    a = cs.targs(ty)
    return len(a) > 1 and bool(HARMLESS.match(cs.strip_ref(a[1])))


def is_library(k, f):
    return not f.d.get("exp") and "_::" not in k and "_#" not in k and "build_script" not in k


class Site:
    def __init__(self, fn, kind, callee, span, ty):
        self.fn, self.kind, self.callee, self.span, self.ty = fn, kind, callee, span, ty

    def key(self):
        return (self.fn, self.kind, self.callee)


def producers(f, local, seen=None):
    """names of the calls a Result-typed local comes from"""
    seen = seen if seen is not None else set()
    if local in seen:
        return set()
    seen.add(local)
    out = set()
    for bi, b in enumerate(f.blocks):
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1] == [local]:
                for k, p in cs.operands(s[2]):
                    out |= producers(f, p[0], seen)
        t = b["t"]
        if t["k"] == "call" and t.get("dest") == [local]:
            p, d = cs.callee(t)
            n = cs.short(p) if p else "a closure"
            last = n.split("::")[-1]
            if last in ("map_err", "map", "and_then", "as_ref", "as_mut", "cloned", "copied", "or_else", "or", "branch", "with_context", "into_iter", "iter", "next") and t["args"]:
                inner = set()
                for k, q in cs.operands(t["args"][0]):
                    inner |= producers(f, q[0], seen)
                out |= inner or {n}
            else:
                out.add(n)
    return out


def err_target(f, bi, dest):
    """block entered if the discriminant read into dest is Err"""
    for b2 in range(bi, len(f.blocks)):
        t = f.blocks[b2]["t"]
        if t["k"] == "switch" and any(p == dest for k, p in cs.operands(t["on"])):
            for v, to in t["arms"]:
                if v == 1:
                    return to
            return t["else"]
    return None


def last_writes(f, start, taken):
    """kinds of the last write to the return place on paths from start to a return that do not
    pass one of the blocks `taken`"""
    out, seen, todo = set(), set(), [(start, None)]
    while todo:
        b, last = todo.pop()
        if (b, last) in seen or b in taken:
            continue
        seen.add((b, last))
        blk = f.blocks[b]
        for s in blk["s"]:
            if s[0] == "=" and s[1][0] == 0 and len(s[1]) == 1:
                rv = s[2]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("enum"):
                    last = rv[1].get("variant")
                else:
                    last = "value"
        t = blk["t"]
        if t["k"] == "return":
            out.add(last)
            continue
        if t["k"] == "call" and t.get("dest") == [0]:
            p, _ = cs.callee(t)
            last = "Err" if p and p.endswith("from_residual") else "call"
        for n in f.succs(b):
            todo.append((n, last))
    return out


def payload_used(f, place, us):
    """blocks in which the error itself is handed on"""
    holders, todo, out = set(), [], set()
    for bi, b in enumerate(f.blocks):
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if s[0] != "=":
                continue
            for k, p in cs.operands(s[2]):
                if p[:len(place)] == place and any(isinstance(x, list) and x[0] == "v" and x[2] == "Err" for x in p[len(place):]):
                    if s[2][0] == "use" and len(s[1]) == 1:
                        todo.append(s[1][0])
                    elif s[2][0] != "ref":
                        out.add(bi)
    while todo:
        x = todo.pop()
        if x in holders:
            continue
        holders.add(x)
        for u in us.get(x, []):
            if u.kind in ("drop", "ref"):
                continue
            if u.kind in ("m", "c") and u.rv[0] == "use" and len(u.dest) == 1 and u.dest[0] != 0:
                todo.append(u.dest[0])
                continue
            out.add(u.block)
    return out


BUFFERED = ("std::io::BufWriter", "std::io::LineWriter", "std::io::IntoInnerError", "flate2::write::DeflateEncoder", "csv::Writer")


CLOSING = {"flush", "into_inner", "finish", "try_finish", "into_parts"}


def closes(w, f, i, us, owned, deep=0):
    """whether f flushes, finishes or gives away the writer in local i"""
    todo, seen = [i], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for u in us.get(x, []):
            if u.kind == "arg":
                p, d = cs.callee(u.term)
                n = cs.short(p).split("::")[-1] if p else ""
                if n in CLOSING or owned and x == i:
                    return True
                k = (d or {}).get("res") or d or {}
                g = w.fns.get(k.get("key") if isinstance(k, dict) else None)
                if g is not None and deep < 5 and u.arg < g.nargs and closes(w, g, u.arg + 1, cs.uses(g), False, deep + 1):
                    return True
            elif u.kind in ("m", "c", "ref") and u.dest is not None:
                if u.rv and u.rv[0] == "agg" and isinstance(u.rv[1], dict) and u.rv[1].get("k") == "closure":
                    # captured: what the closure does with it
                    g = w.fns.get(u.rv[1].get("key"))
                    if g is not None and deep < 5 and closes(w, g, 1, cs.uses(g), False, deep + 1):
                        return True
                if u.dest == [0] or owned and x == i and u.kind == "m" and len(u.place) == 1 and (len(u.dest) > 1 or cs.head(f.locals[u.dest[0]].get("ty")) not in BUFFERED):
                    return True
                todo.append(u.dest[0])
    return False


def unflushed(w, f, us):
    """buffered writers that go out of scope without having been flushed: the drop loses the error"""
    for i, l in enumerate(f.locals):
        if i <= f.nargs or cs.head(l.get("ty")) not in BUFFERED or str(l.get("ty")).lstrip().startswith("&"):
            continue
        if any(u.kind == "drop" for u in us.get(i, [])) and not closes(w, f, i, us, True):
            yield i


def sites(w):
    """everything done to a Result that may lose its error"""
    for k, f in cs.workspace_fns(w):
        if not is_library(k, f):
            continue
        us = cs.uses(f)
        for i in unflushed(w, f, us):
            yield Site(k, "not flushed", f.locals[i].get("name") or "a buffered writer", None, f.locals[i].get("ty"))
        for i, l in enumerate(f.locals):
            ty = l.get("ty")
            if i == 0 or not cs.is_result(ty) or harmless(ty):
                continue
            u = us.get(i, [])
            real = [x for x in u if x.kind not in ("drop", "write")]
            name = lambda: ", ".join(sorted(producers(f, i))) or "a parameter"
            if not real and i > f.nargs and not str(ty).lstrip().startswith("&"):
                defs = [t for _, t, p, d in cs.calls(f) if t.get("dest") == [i]]
                if defs:
                    yield Site(k, "dropped", name(), defs[0].get("span"), ty)
            for x in real:
                if x.kind == "arg":
                    p, d = cs.callee(x.term)
                    if not p:
                        continue
                    n = cs.short(p)
                    own, m = n.split("::")[-2:] if "::" in n else ("", n)
                    if own == "Result" or n.startswith("Result"):
                        if m in ASSERTING:
                            yield Site(k, m, name(), x.term["span"], ty)
                        elif m in REDUCING and x.arg == 0:
                            yield Site(k, m, name(), x.term["span"], ty)
                    elif m in FLATTENING:
                        yield Site(k, m, name(), x.term["span"], ty)
                    elif m in ("drop", "forget") and own == "mem":
                        yield Site(k, "dropped", name(), x.term["span"], ty)
        for bi, b in enumerate(f.blocks):
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "discr" and cs.is_result(s[2][2]) and not harmless(s[2][2]):
                    to = err_target(f, bi, s[1])
                    if to is None:
                        continue
                    lw = last_writes(f, to, payload_used(f, s[2][1], us))
                    if lw - {"Err", None, "call"}:
                        yield Site(k, "matched", ", ".join(sorted(producers(f, s[2][1][0]))), s[3] if len(s) > 3 else None, s[2][2])
            t = b["t"]
            if t["k"] != "call":
                continue
            for cst in list(cs.consts(t["args"])):
                p = (cst.get("fn") or {}).get("path", "")
                g = str(cst.get("ty"))
                if p.startswith(("std::result::Result", "core::result::Result")) and cs.short(p).split("::")[-1] in REDUCING | ASSERTING:
                    m = re.search(r"Result::<(.*)>::\w+\}?$", g)
                    if not (m and harmless("Result<%s>" % m.group(1))):
                        yield Site(k, cs.short(p).split("::")[-1], "each element", t["span"], g)
            p, d = cs.callee(t)
            dt = str(t.get("destty") or "")
            n = cs.short(p) if p else ""
            if n == "Iterator::flatten":
                inner = dt[dt.find("Flatten<"):]
                item = None
                if RESULT_ITERS.search(inner):
                    item = "a reader's result"
                m = re.search(r"\{closure@[^}]*\}|\{closure#\d+\}", inner)
                for kk, ff in w.fns.items():
                    if kk.startswith(k + "::{closure") and cs.is_result(ff.locals[0].get("ty")) and not harmless(ff.locals[0].get("ty")) and "Map<" in inner:
                        item = "a closure's result"
                if item:
                    yield Site(k, "flatten", item, t["span"], dt)
            if n == "Iterator::flat_map":
                a = [x for x in cs.targs(dt[dt.find("FlatMap<"):])]
                if len(a) > 1 and cs.is_result(a[1]) and not harmless(a[1]):
                    yield Site(k, "flat_map", "a closure's result", t["span"], dt)


def graph(w):
    """callers of each function (closures belong to the function around them)"""
    g = {}
    for k, f in cs.workspace_fns(w):
        base = k.split("::{closure")[0]
        for _, t, p, d in cs.calls(f):
            if d:
                for x in {d.get("key"), (d.get("res") or {}).get("key")}:
                    if x in w.fns:
                        g.setdefault(x.split("::{closure")[0], set()).add(base)
                for i, kk in w.trait_impls.get(d.get("key"), []):
                    g.setdefault(kk, set()).add(base)
            for cst in cs.consts(t["args"]):
                x = (cst.get("fn") or {}).get("key")
                if x in w.fns:
                    g.setdefault(x, set()).add(base)
    return g


def above(g, k):
    out, todo = [], [k]
    while todo:
        x = todo.pop(0)
        if x in out:
            continue
        out.append(x)
        todo.extend(sorted(g.get(x, ())))
    return out


def live(t):
    return [x for x in leaves(t) if x.op not in ("undef", "dead")]


def check(c):
    cfgs = ("default", "compress") + (("some1", "some2", "some3") if c.tier == "thorough" else ())
    seen, total = set(), 0
    for cfg in cfgs:
        w = c.w(cfg)
        g = None
        for k, f in cs.workspace_fns(w):
            if is_library(k, f):
                total += sum(1 for l in f.locals if cs.is_result(l.get("ty")))
        found = {}
        for s in sites(w):
            found.setdefault(s.fn.split("::{closure")[0], []).append(s)
        for k in sorted({k.split("::{closure")[0] for k, f in cs.workspace_fns(w) if is_library(k, f)}):
            if (cfg != "default" and k not in found) or k in seen and k not in found:
                continue
            f = w.fns.get(k)
            if f is None or not any(cs.is_result(l.get("ty")) for kk, ff in w.fns.items() if kk == k or kk.startswith(k + "::{closure") for l in ff.locals):
                continue
            seen.add(k)
            if g is None:
                g = graph(w)

            def go(k=k, w=w, g=g, cfg=cfg, ss=found.get(k, [])):
                for s in ss:
                    judge(c, w, g, cfg, s)
                return "%d sites looked into" % len(ss)
            c.ob("%s%s" % (k, "" if cfg == "default" else " (%s)" % cfg), go)
    c.floor("values of type Result", total, 300)
    c.counts["values of type Result"] = total


EXPLAIN = {"dropped": "is dropped unread", "unwrap": "is unwrapped", "expect": "is unwrapped"}


def judge(c, w, g, cfg, s):
    base = s.fn.split("::{closure")[0]
    ups = above(g, base)
    what = "%s: the result of %s" % (base, s.callee)
    if s.kind in ASSERTING or s.kind == "dropped":
        if base.startswith("lindera::") and "serde_json::Error" in str(s.ty) and s.kind == "unwrap":
            return  # json! of plain values
        raise Violated("%s %s" % (what, EXPLAIN.get(s.kind, "is unwrapped")))
    if s.kind == "not flushed":
        raise Violated("%s: the buffered writer %s goes out of scope without having been flushed" % (base, s.callee))
    if is_details(w, base, g):
        return
    # does the failure reach the caller after all?
    roots = [k for k in ups if cs.is_result(w.fns[k].locals[0].get("ty"))]
    if not roots:
        raise Violated("%s is reduced by %s, and no function above returns an error" % (what, s.kind))
    names = [n.strip() for n in s.callee.split(",")]
    for k in roots[:4]:
        ok = reaches(c, cfg, k, names)
        if ok:
            return
        if ok is not None:
            raise Violated("%s is reduced by %s, and the failure does not make %s fail" % (what, s.kind, k))
    raise Violated("%s is reduced by %s, and the failure makes no function above fail" % (what, s.kind))


def is_details(w, k, g):
    """word_details itself, or a helper only it uses"""
    if k.split("::")[-1] == "word_details":
        return True
    ups = g.get(k, set()) - {k}
    return bool(ups) and all(is_details(w, u, {x: y for x, y in g.items() if x != k}) for u in ups)


def reaches(c, cfg, k, names):
    """whether k returns an error whenever the operation fails; None if k does not depend on it"""
    ret = c.analyse(k, but(tuple(names)), cfg=cfg).ret
    flags = {u for u in subterms(ret) if u.op == "f" and str(u.args[2]).startswith("skip_invalid")}
    if flags:
        ret = subst(ret, {u: FALSE for u in flags})
    hits = set()
    for u in subterms(ret):
        if u.op == "is" and u.args[2] in ("Err", "Ok") and u.args[0].op == "call":
            if any(same_name(str(u.args[0].args[0]), n) for n in names):
                hits.add(u)
    if not hits:
        return None
    return all(fails(ret, u) for u in hits)


_but = {}


def but(names):
    """the assumption that every operation but the named ones succeeds"""
    if names not in _but:
        def f(u, enum):
            r = asm.root(u)
            if r.op == "call" and any(same_name(str(r.args[0]), n) for n in names):
                return None
            return asm.all_ok(u, enum)
        _but[names] = f
    return _but[names]


def same_name(call, name):
    a, b = call.split("<")[0].split("::"), name.split("::")
    if len(a) > 1 and len(b) > 1 and a[-2] != b[-2] and a[-2][:1].isupper() and b[-2][:1].isupper():
        return False
    n = a[-1].split(":")[-1]
    return n == b[-1] or n == "parse" and b[-1] == "from_str"


def is_error(x):
    return x.op in ("undef", "dead") or x is TRUE or x.op == "adt" and x.args[1] == "Err" or x.op == "exitby"


def fails(t, u, top=True):
    """in the diagram t a failure of u decides for an error wherever it makes a difference"""
    if t.op != "cond":
        return False
    bad = u.args[2] == "Err"
    found = False
    if u in atoms(t):
        for x, y, _ in joint(assume(t, u, bad), assume(t, u, not bad)):
            if x is not y:
                if not is_error(x):
                    return False
                found = True
    if found:
        return True
    for a in atoms(t):
        if a.op == "exists" and u in subterms(a.args[1]) and fails(a.args[1], u, False):
            if top and not all(is_error(x) for x in leaves(assume(t, a, True))):
                continue
            if not top and assume(t, a, True) is not TRUE:
                continue
            return True
    return False
