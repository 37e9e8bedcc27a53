"""C39. For every unsigned subtraction that analysis can reach (from `apply` of the filters, `tokenize`, the
lattice, the mode's penalty, the lookup of character categories, correction of offsets, loading and building of
dictionaries and the command line) the condition under which the subtrahend is the larger is derived, along every
path through callees, closures and loops.  The rule: no path of that condition is free of contradiction (linear
inequalities over lengths, indices and the guards passed on the way).  Three facts come from their own
obligations: the table of category boundaries begins with 0, so a search in it never reports a
place before the first; the keys of an ordered map are not below its first key; and every candidate in the
lattice stops at or after its start, so its number of characters is not negative."""
from .c14 import *
from .lattice import lattice, registered
from .c27 import method
from lintlib.cuts import uncast

ASSUMES = ["additions do not overflow", "dictionary files were written by the builders"]


def err_of_search(t):
    """(list, key) of binary_search(list, key).Err.0"""
    t = uncast(t)
    if t.op == "f" and t.args[1] == "Err" and t.args[0].op == "call" and t.args[0].args[0].startswith("slice::binary_search"):
        return t.args[0].args[1]


def facts(zero_first):
    def known(m):
        a = err_of_search(m)
        if a is not None:
            first = a.op == "f" and a.args[2] in zero_first
            return [sub(m, INT(1 if first else 0))]
        q = key_of(m)
        if q is not None:
            return [sub(m, first_key(q)), m]
        if m.op == "f" and m.args[0].op == "f" and m.args[0].args[0].op == "call" and m.args[0].args[0].args[0] == "BTreeMap::first_key_value":
            return [m]
        if m.op == "f" and m.args[2] == "0" and m.args[0].op == "idx" and m.args[0].args[0].op == "call" and m.args[0].args[0].args[0] == "PrefixDict::prefix":
            return [m]
        if m.op == "call" and m.args[0] in ("partition_point", "slice::partition_point"):
            return [m]
        if m.op in ("sum", "psum"):
            x = uncast(m.args[1])
            if x.op == "len" or x.op == "call" and x.args[0] in ("char::len_utf8", "len"):
                return [m]
    return known


def first_key(m):
    return field(field(mk("call", "BTreeMap::first_key_value", m), "0", "Some"), "0")


def key_of(t):
    """the ordered map of which t is some key"""
    if t.op == "f" and t.args[2] == "0" and t.args[0].op == "idx":
        b = t.args[0].args[0]
        if b.op == "call" and b.args[0] == "map_iter":
            return b.args[1]


def empty_map(lits):
    """a map that is being iterated has no first key"""
    for a, v in lits.items():
        if not v and a.op == "is" and any(u.op == "call" and u.args[0] == "BTreeMap::first_key_value" for u in subterms(a)):
            return True
    return clash(lits)


def path(p, zf):
    known = (facts(zf),)
    if key_of(uncast(p.detail[0])) is None:
        return reach(p, known, clash)
    return reach(p, known, empty_map)


def reach(p, known, no):
    x = possible(p.guard, known, no)
    if x is None:
        return None
    g, where = members(as_bool(p.guard))
    return x if where is TRUE else possible(AND(g, where), known, no)


def cases_of(t, g=TRUE):
    if t.op == "cond":
        a, hi, lo = t.args
        return cases_of(hi, AND(g, a)) + cases_of(lo, AND(g, NOT(a)))
    return [(t, g)]


def edge_length(p):
    """stop_index - start_index of one edge"""
    a, b = (uncast(x) for x in p.detail)
    return a.op == "f" and b.op == "f" and a.args[0] is b.args[0] and a.args[2] == "stop_index" and b.args[2] == "start_index"


def table(c):
    """fields of the category table that begin with 0"""
    hit = [k for k in c.w().fns if k.endswith("::from_fn") and k.startswith("lindera_core::character_definition")]
    if not hit:
        raise Missing("LookupTable::from_fn")
    r = c.analyse(hit[0], "all")
    out = set()
    n = 0
    for lf, g in cases_of(r.ret):
        decided(lf.op == "adt", "the table is %s" % show(lf, 4))
        for (f), x in adt_fields(lf):
            srt = False
            for y, h in cases_of(x, g):
                if y.op == "mut" and y.args[0] == "Vec::insert" and y.args[2][1] is INT(0) and y.args[2][2] is INT(0):
                    srt, n = True, n + 1
                elif y.op == "call" and y.args[0] == "sorted":
                    srt = True
                    z = y.args[1]
                    ok = contains_zero(z, h)
                    if not ok:
                        for lit, _ in path_of(h):
                            decided(not any(u is z or u is y for u in subterms(lit)) or lit.op == "zero" and lit.args[0].op == "len"
                                    or lit.op == "pos", "the boundaries are %s if %s" % (show(z, 4), show(h, 4)))
                        odd = [u for u in subterms(z) if u.op in ("mu", "fin", "mut", "opaque", "undef")]
                        decided(not odd, "the boundaries are %s" % show(z, 4))
                        raise Violated("the boundaries %s need not begin with 0" % show(z, 4))
                    n += 1
            if srt:
                out.add(f)
    decided(n, "no sorted boundaries in %s" % show(r.ret, 3))
    return out


def adt_fields(t):
    names = t.args[2] if len(t.args) > 2 else ()
    for x in t.args[2:] if not isinstance(names, tuple) else names:
        if isinstance(x, tuple) and len(x) == 2:
            yield x


def contains_zero(z, g):
    for u in conj(g):
        if u.op == "zero" and u.args[0].op == "idx" and u.args[0].args[1] is INT(0) and z in subterms(u.args[0].args[0]):
            return True
    if g.op == "cond" or g.op in ("call", "contains"):
        for u in conj(g):
            if u.op in ("call", "contains") and "contains" in str(u.args[0]) + u.op and any(x is z for x in u.args) and INT(0) in u.args:
                return True
    if z.op == "app":
        it = z.args[-1]
        if it.op == "item" and INT(0) in it.args:
            return True
        return contains_zero(z.args[0], g)
    if z.op == "cond":
        return all(contains_zero(y, AND(g, h)) for y, h in cases_of(z))
    if z.op in ("arr", "seq"):
        return INT(0) in z.args
    return False


def path_of(g):
    """the atoms of a condition"""
    out, todo = [], [as_bool(g)]
    while todo:
        t = todo.pop()
        if t.op == "cond":
            out.append((t.args[0], True))
            todo += [t.args[1], t.args[2]]
    return out


def conj(g):
    """literals that hold wherever g does"""
    if g.op == "cond":
        a, hi, lo = g.args
        if lo is FALSE:
            return [a] + conj(hi)
        if hi is FALSE:
            return conj(lo)
        return []
    return [g]


ROOTS = (("Tokenizer", "tokenize"), ("Lattice", "set_text"), ("Lattice", "calculate_path_costs"), ("Lattice", "tokens_offset"),
         ("PrefixDict", "prefix"), ("PrefixDict", "find_surface"), ("CharacterDefinitions", "lookup_categories"))


def check(c):
    w = c.w()
    n = [0, 0]
    zf = set()

    def boundaries():
        zf.update(table(c))
        return "%s begin with 0" % ", ".join(sorted(zf))

    def lengths():
        s = lattice(c)
        require(s.cands, "there are no candidates")
        und = None
        for x in s.cands:
            a, b = uncast(field(x.edge, "stop_index")), uncast(field(x.edge, "start_index"))
            bad = AND(as_bool(x.guard), pos(sub(b, a)))
            try:
                lits = None if bad is FALSE else possible(bad, (facts(zf),), clash)
            except GiveUp:
                lits = ()
            if lits is None:
                continue
            if lits == () or not linear(a) or not linear(b):
                und = und or "a candidate from %s to %s" % (show(b, 4), show(a, 4))
                continue
            raise Violated("a candidate from %s to %s can stop before it starts, if %s" % (show(b, 4), show(a, 4), shown(lits, 4)))
        decided(und is None, und)
        return "%d kinds of candidate" % len(s.cands)

    sound = c.ob("category boundaries begin with 0", boundaries)
    c.ob("candidates stop where they start or later", lengths)

    def go(key, what, opaque=()):
        r = c.analyse(key, "all", opaque=opaque)
        und = None
        m = 0
        for p in r.panics:
            if p.kind != "event:underflow" or p.guard is FALSE:
                continue
            n[0] += 1
            a, b = p.detail
            try:
                x = path(p, zf)
            except GiveUp:
                und = und or "%s - %s in %s: condition too large" % (show(a, 3), show(b, 3), cs.short(p.fn))
                continue
            if x is None or edge_length(p):
                m += 1
                continue
            e = err_of_search(a)
            if not linear(a, opaque) or not linear(b, opaque) or any(u.op == "call" and u.args[0].endswith("partition_point") for u in subterms(a)) or e is not None and not sound:
                und = und or "%s - %s in %s" % (show(a, 4), show(b, 4), cs.short(p.fn))
                continue
            raise Violated("%s: %s - %s in %s is below zero if %s" % (what, show(a, 5), show(b, 5), cs.short(p.fn), shown(x, 4)))
        decided(und is None, "%s: %s" % (what, und))
        n[1] += m
        return "%d subtractions" % m

    for tr in ("TokenFilter", "CharacterFilter"):
        for name, key in sorted(filters(c, tr).items()):
            c.ob(name, go, key, name)
    for adt, f in ROOTS:
        c.ob("%s %s" % (adt, f), lambda adt=adt, f=f: go(method(c, adt, f), f,
             tuple(method(c, *x) for x in ROOTS if x[0] == "Lattice") if adt == "Tokenizer" else ()))
    for k in sorted(w.fns):
        if "{closure" in k or "::tests" in k:
            continue
        if k.endswith("::correct_offset") or k.endswith("::penalty_cost"):
            c.ob(cs.short(k), go, k, cs.short(k))
    for k, kind in entries(c):
        owner = str(w.fns[k].d.get("impl_self") or k).split("::")[-1].strip(">")
        c.ob("%s %s" % (owner, k.split("::")[-1]), go, k, cs.short(k))
    c.counts["subtractions met"] = n[0]
    c.counts["subtractions that stay at zero or above"] = n[1]


def linear(t, opaque=()):
    """built from lengths, indices, inputs and results of the functions named only"""
    names = {x.split("::")[-1] for x in opaque}
    if t.op in ("mut", "call") and str(t.args[0]).split("::")[-1] in names:
        return True
    if (t.args[0] if t.op == "call" else t.op) in INTERNAL:
        return False
    return all(linear(u, opaque) for u in flat_args(t))


def flat_args(t):
    todo = list(t.args)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isT(x):
            yield x
