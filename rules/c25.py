"""C25. Every function the dictionary builders reach is searched for conversions of numbers to types
that cannot hold them all.  For each conversion of a number that comes from a source, the results of
the functions that perform it are derived as expressions; assuming the number is outside the target's
range, no path may be left on which the function succeeds.  A checked conversion whose failure is
replaced by some value counts the same way.  Counts and positions may only be converted to types of
at least 32 bits."""
import re
from .c13 import is_error, is_library, but
from .c15 import reachable
from .common import *
from lintlib import census as cs, assume as asm

ASSUMES = ["built files and row counts stay below 2^32"]
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


def span(ty):
    b = BITS[ty]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty[0] == "i" else (0, (1 << b) - 1)


def narrows(to, frm):
    return to in BITS and frm in BITS and (span(to)[0] > span(frm)[0] or span(to)[1] < span(frm)[1])


def mode(u, enum):
    """everything succeeds except checked conversions"""
    if asm.root(u).op == "call" and str(asm.root(u).args[0]).startswith("try_"):
        return None
    return asm.all_ok(u, enum)


def roots(w):
    out = []
    for k, f in cs.workspace_fns(w):
        if is_library(k, f) and "{closure" not in k and re.search(r"(^|::)build(_\w+)?$", k) and cs.is_result(f.locals[0].get("ty")):
            out.append(k)
    return out


def mir_sites(f):
    """narrowing casts and checked conversions"""
    for b in f.blocks:
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "cast":
                kind = str(s[2][1])
                ty = [f.locals[q[0]].get("ty") for _, q in cs.operands(s[2])][:1]
                a, t = str(s[2][-1]), str(s[2][-2])
                if "FloatToInt" in kind:
                    yield "float", t
                elif "IntToInt" in kind and narrows(t, a):
                    yield t, a
        t = b["t"]
        if t["k"] == "call":
            p, d = cs.callee(t)
            if p and p.split("::")[-1] in ("try_from", "try_into") and "TryFromIntError" in str(f.locals[t["dest"][0]].get("ty")):
                yield "try", p


def ranged(t):
    """checked conversions written as the number and its range"""
    m = {}
    for u in subterms(t):
        if u.op == "is" and u.args[0].op == "call" and str(u.args[0].args[0]).startswith("try_") and u.args[0].args[0][4:] in BITS and u.args[2] in ("Ok", "Err"):
            p = ranged(uncast(u.args[0].args[-1]))
            lo, hi = span(u.args[0].args[0][4:])
            inside = AND(le(INT(lo), p), le(p, INT(hi)))
            m[u] = inside if u.args[2] == "Ok" else NOT(inside)
    for u in subterms(t):
        if u.op == "f" and u.args[1] == "Ok" and u.args[0].op == "call" and str(u.args[0].args[0]).startswith("try_") and u.args[0].args[0][4:] in BITS:
            m[u] = ranged(uncast(u.args[0].args[-1]))
    return uncast(subst(t, m)) if m else uncast(t)


def instances(L, body, x):
    """values of the loop's counter at which its body talks about the element x is made of"""
    kk = mk("k", L)
    out = {kk} if kk in subterms(x) else set()
    want = [u for u in subterms(x) if u.op == "idx"]
    for u in subterms(body):
        if u.op == "idx" and kk in subterms(u.args[1]) and kk not in subterms(u.args[0]):
            off = sub(u.args[1], kk)
            if kk in subterms(off):
                continue
            for v in want:
                i = sub(v.args[1], off)
                if v.args[0] is u.args[0] and lt(i, INT(0)) is not TRUE and lt(i, loop_len(L)) is not FALSE:
                    out.add(i)
    for u in subterms(x):
        if u.op == "k" and u.args[0] is not L and u.args[0].args and L.args and u.args[0].args[-1] is L.args[-1]:
            out.add(u)
    return out


def given(t, bad):
    if bad.op == "cond" and {bad.args[1], bad.args[2]} == {TRUE, FALSE}:
        return assume(t, bad.args[0], bad.args[1] is TRUE)
    return restrict(t, bad)


def must(t, bad, x):
    """t is certainly true when bad holds"""
    t = given(t, bad)
    if t.op != "cond":
        return t is TRUE
    a, hi, lo = t.args
    if must(hi, bad, x):
        return must(lo, bad, x) or forced(a, bad, x)
    return False


def forced(a, bad, x):
    """a search certainly finds an offending element"""
    if a.op != "exists":
        return False
    L, body = a.args[0], a.args[1]
    kk = mk("k", L)
    return any(must(body if i is kk else subst(body, {kk: i}), bad, x) for i in instances(L, body, x))


def succeeds(t, bad, x):
    """a path on which the function succeeds although bad holds: None, or the conditions on it"""
    t = given(t, bad)

    def go(t, g):
        if t.op != "cond":
            return None if is_error(t) else g
        a, hi, lo = t.args
        r = go(hi, g + [a])
        if r is None and not forced(a, bad, x):
            r = go(lo, g + [a])
        return r
    return go(t, [])


def source_number(x):
    """numbers the sources give, inside an operand"""
    return [u for u in subterms(x) if u.op == "call" and re.match(r"(parse|from_str|from_str_radix|i\d+::from_str|u\d+::from_str)", str(u.args[0]))]


def countlike(x):
    for u in [x]:
        c0, ts = lin_parts(u)
        if not all(count(a) for a, k in ts):
            return False
    return True


def count(a):
    return a.op in ("len", "k", "psum", "fin", "mu", "rank") or a.op == "call" and str(a.args[0]).split("::")[-1] in ("len", "count", "position") or \
        a.op == "mul" and all(count(y) for y in children(a))


def terms_of(r):
    ts = [r.ret] + [t for t in r.final_state.values() if isT(t)]
    for l in r.loops:
        ts += list(l.steps.values()) + list(l.inits.values())
        ts += [t for t in (l.cont, l.brk) if isT(t)]
    for a in r.writers:
        ts += [x for x in a if isT(x)]
    seen = set()
    for t in ts:
        subterms(t, seen) if False else None
        seen |= subterms(t)
    return seen


def judge(c, k, cfg):
    r = c.analyse(k, mode, cfg=cfg)
    ret = ranged(r.ret)
    seen = terms_of(r)
    n = 0
    todo = []
    for u in seen:
        if u.op == "cast":
            to, frm, x = u.args[0], u.args[1], u.args[-1]
            f0 = frm
            inner = x
            while inner.op == "cast":
                f0, inner = inner.args[1], inner.args[-1]
            todo.append((to, f0, ranged(x), "converted to %s" % to))
        elif u.op == "call" and str(u.args[0]).startswith("try_") and u.args[0][4:] in BITS:
            todo.append((u.args[0][4:], None, ranged(u.args[-1]), "converted to %s, checked," % u.args[0][4:]))
    params = {mk("par", p) for p in fn_params(c, k, cfg)}
    for to, frm, x, what in sorted(set(todo), key=lambda z: (z[0], z[2].id)):
        if to not in BITS:
            continue
        if x.op == "int":
            continue
        if countlike(x):
            require(BITS[to] >= 32, "%s: the count %s is %s" % (k, show(x, 5), what))
            n += 1
            continue
        if x in params or x.op == "cond":
            continue  # a helper's parameter: its callers are looked at
        lo, hi = span(to)
        flo, fhi = span(frm) if frm in BITS else (None, None)
        for bad, desc in ((lt(x, INT(lo)), "below"), (lt(INT(hi), x), "above")):
            if flo is not None and (desc == "below" and flo >= lo or desc == "above" and fhi <= hi):
                continue
            if bad is FALSE:
                continue
            n += 1
            g = succeeds(ret, bad, x)
            if g is None:
                continue
            odd = [a for a in g if mentions(a, x)]
            decided(not odd, "%s: %s is %s under %s" % (k, show(x, 5), what, show(odd[0], 4) if odd else ""))
            decided(source_number(x) or known_root(x), "%s: where %s comes from" % (k, show(x, 5)))
            raise Violated("%s: %s is %s and may be %s its range" % (k, show(x, 6), what, desc))
    return "%d bounds" % n


def known_root(x):
    """a number read from a record or an argument, not the result of a computation"""
    return all(a.op in ("f", "par", "idx") for a, _ in lin_parts(x)[1])


def mentions(a, x):
    """the condition asks something of x that is not understood"""
    if a.op == "exists":
        return False
    return any(u.op == "call" and u not in subterms(x) and any(isT(v) and (v is x or any(y is x for y, _ in lin_parts(v)[1])) for v in u.args) for u in subterms(a))


def check(c):
    cfgs = ("default",) + (("compress",) if c.tier == "thorough" else ())
    total = conv = 0
    for cfg in cfgs:
        w = c.w(cfg)
        rs = roots(w)
        c.floor("functions that build", len(rs), 8)
        seen, _ = reachable(w, rs)
        # functions that convert, themselves or through functions that cannot fail
        has = {}
        for k in sorted(seen):
            if not is_library(k, w.fns[k]):
                continue
            total += 1
            for s in mir_sites(w.fns[k]):
                has.setdefault(k.split("::{closure")[0], []).append(s)
                conv += 1
        own = set()
        from .c13 import graph, above
        g = graph(w)
        for k in has:
            for kk in above(g, k):
                f = w.fns.get(kk)
                if f is None or kk not in seen:
                    continue
                own.add(kk)
                if cs.is_result(f.locals[0].get("ty")) and not private_helper(w, kk, g):
                    break
        for k in sorted(own):
            if cs.is_result(w.fns[k].locals[0].get("ty")):
                c.ob("conversions: %s%s" % (k, "" if cfg == "default" else " (%s)" % cfg), judge, c, k, cfg)
        for k, ss in sorted(has.items()):
            def floats(k=k, ss=ss):
                require(not any(s[0] == "float" for s in ss), "%s converts a floating point number" % k)
                return "%d conversions" % len(ss)
            c.ob("no floating point: %s%s" % (k, "" if cfg == "default" else " (%s)" % cfg), floats)
    c.counts["functions searched"] = total
    c.counts["conversions"] = conv


def private_helper(w, k, g):
    return not w.fns[k].d.get("pub") and bool(g.get(k, set()) - {k})
