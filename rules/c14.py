"""C14. Every access that can panic (index, slice, unwrap, explicit panic, and the trie builder, which
panics without keys and on keys with NUL) in what the dictionary builders, the constructors of filter
settings and the command line flag parser do is derived together with the condition on the input
under which execution reaches it and it fails - every path through callees, closures and loops.  The
rule: no path of that condition is free of contradiction.  Paths are refuted with linear inequalities
over lengths and indices, the ranges of loops, and what is known for all elements of a sequence because
an earlier check would have ended the call.  Accesses to the program's own tables (not columns or parts
of the input) are counted but belong to other rules."""
import re
from .common import *
from .c18 import filters
from lintlib import bounds, census as cs
from lintlib.bounds import possible, shown, GiveUp, members

ASSUMES = ["csv yields records of at least one field", "an operation that can fail for reasons outside the input succeeds here (C13 decides its failures)",
           "text is cut at character boundaries"]
BUILD = ("build_chardef", "build_cost_matrix", "build_dict", "build_unk", "build_user_dict")


def rows(t):
    """t is a list of csv records"""
    if t.op == "call" and t.args[0] in ("sorted", "reversed", "collect", "set"):
        return rows(t.args[1])
    if t.op == "call" and t.args[0].endswith(("Reader::records", "Reader::into_records", "Reader::byte_records")):
        return True
    if t.op == "coll":
        for l in leaves(t.args[1]):
            if l.op != "seq" or any(not (row(x.args[0]) if x.op == "it" else rows(x.args[0])) for x in l.args):
                return False
        return True
    if t.op == "cond":
        return all(rows(l) for l in leaves(t))
    if t.op == "f" and t.args[1] in ("Ok", "Some"):
        return rows(t.args[0])
    return False


def row(t):
    """t is one csv record"""
    if t.op == "f" and t.args[1] in ("Ok", "Some"):
        return row(t.args[0])
    if t.op == "cond":
        return all(row(l) for l in leaves(t))
    return t.op == "idx" and rows(t.args[0])


def record_fact(c, fn):
    f = c.w().fns.get(fn)
    recs = f is not None and any("StringRecord" in str(f.locals[i].get("ty")) for i in range(1, f.nargs + 1))

    def known(m):
        if m.op == "len" and (row(m.args[0]) or recs and m.args[0].op == "sym"):
            return [sub(m, INT(1))]
    return known


def clash(lits):
    """NUL in a key that was tested for NUL"""
    for a, v in lits.items():
        if v and a.op == "call" and a.args[0] == "has_nul":
            x = uncast(a.args[1])
            if any(not v2 and spans_nul(b, x) for b, v2 in lits.items()):
                return True
    return False


def open_path(c, p, extra=()):
    """literals of a path on which the access fails, or None"""
    known = (record_fact(c, p.fn),) + tuple(extra)
    x = possible(p.guard, known, clash)
    if x is None:
        return None
    g, where = members(as_bool(p.guard))
    if where is not TRUE:
        x = possible(AND(g, where), known, clash)
    return x


INTERNAL = ("mu", "fin", "mut", "undef", "dead", "opaque", "psum", "atkey", "map_iter", "map_at", "map_get")


def subject(p):
    """what decides whether the access fails"""
    if p.kind in ("bounds", "slice") and p.detail:
        return list(p.detail)
    if p.kind == "unwrap" and p.detail:
        return list(p.detail)
    return [p.guard]


def internal(p):
    skip = ("map_iter", "mut") if p.kind.startswith("contract:") else ()
    for t in subject(p):
        if isT(t):
            for u in subterms(t):
                n = u.args[0] if u.op == "call" else u.op
                if n in INTERNAL and n not in skip:
                    return u
    return None


def constant(p):
    """fails or not whatever the input is"""
    return p.kind == "unwrap" and not any(u.op in ("par", "sym", "k", "idx") or u.op == "call" and u.args[0].startswith("io_") for t in p.detail for u in subterms(t))


WHAT = {"bounds": "index out of range", "slice": "slice out of range", "unwrap": "unwrap of an absent value", "map-index": "missing key",
        "contract:no keys": "the trie builder gets no keys", "contract:NUL in a key": "the trie builder gets a key with NUL"}


def judge(c, r, what, skip_internal=True, extra=(), skip=()):
    """(sites proved, sites left to other rules)"""
    n = m = 0
    und = None
    for p in r.panics:
        if p.guard is FALSE or p.kind.startswith("event:"):
            n += not p.kind.startswith("event:")
            continue
        try:
            x = open_path(c, p, extra)
        except GiveUp:
            und = und or "%s in %s: condition too large" % (p.kind, cs.short(p.fn))
            continue
        if x is None:
            n += 1
            continue
        if any(s(p) for s in skip):
            m += 1
            continue
        if internal(p) is not None:
            if skip_internal:
                m += 1
            else:
                und = und or "%s in %s depends on %s" % (p.kind, cs.short(p.fn), show(internal(p), 4))
            continue
        if constant(p):
            und = und or "%s in %s of %s" % (p.kind, cs.short(p.fn), show(p.detail[0], 4))
            continue
        if p.kind not in WHAT:
            bad = [u for a in x for u in subterms(a) if u.op in INTERNAL]
            if bad:
                und = und or "%s in %s if %s" % (p.kind, cs.short(p.fn), shown(x, 4))
                continue
        sites = ", ".join(show(t, 5) for t in (p.detail or ()) if isT(t))
        raise Violated("%s: %s in %s (%s) if %s" % (what, WHAT.get(p.kind, "panic (%s)" % p.kind), cs.short(p.fn), sites, shown(x, 5)))
    decided(und is None, "%s: %s" % (what, und))
    return n, m


def entries(c):
    """functions that read definitions or settings"""
    w = c.w()
    out = []
    for k, f in cs.workspace_fns(w):
        if "{closure" in k or "::tests" in k:
            continue
        name = k.split("::")[-1]
        cr = k.split("::")[0]
        if name in BUILD and f.d.get("impl_self") and "uilder" in str(f.d["impl_self"]) and cr != "lindera_dictionary_builder":
            out.append((k, "builder"))
        elif name in ("from_value", "from_slice", "new") and cr == "lindera_filter" and f.d.get("impl_self"):
            out.append((k, "settings"))
        elif name in ("parse_cli_flag", "load_from_cli_flag", "load_from_value"):
            out.append((k, "settings"))
        elif name == "from_str" and cr.startswith("lindera") and f.d.get("impl_self"):
            out.append((k, "settings"))
    return out


def check(c):
    w = c.w()
    es = entries(c)
    c.floor("dictionary builder functions", len([1 for _, s in es if s == "builder"]), 25)
    c.floor("constructors of settings", len([1 for _, s in es if s == "settings"]), 40)
    tot = [0, 0]
    for k, kind in es:
        def go(k=k):
            r = c.analyse(k, "all")
            n, m = judge(c, r, cs.short(k))
            tot[0] += n
            tot[1] += m
        f = w.fns[k]
        owner = str(f.d.get("impl_self") or k).split("::")[-1].strip(">")
        c.ob("%s %s" % (owner, k.split("::")[-1]), go)
    c.counts["accesses proved"] = tot[0]
    c.counts["accesses to the program's own tables"] = tot[1]
