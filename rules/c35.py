"""C35. Every access that can panic (index, slice, unwrap, explicit panic, missing key of a map) in what
`apply` of the token and character filters does is derived together with the condition under which
execution reaches it and it fails, for every text, every token list and every number of details.  The
rule: no path of that condition is free of contradiction (linear inequalities over lengths and
indices).  Every position at which a text is cut is a character boundary: the start or end, the end of
a prefix match or of a whole character found at a boundary, what remains before a suffix the text
ends with, or (in loops) one of these by induction.  What a setting can hold (the parts of a stored tag)
is taken from the constructor of the setting.  That the mapping filters find what their trie reports
is decided with C26."""
from .c14 import *
from lintlib.cuts import Cuts, SEARCH
from lintlib.bounds import prefix_match

ASSUMES = ["settings are made by their constructors", "arithmetic on lengths and positions does not overflow",
           "an access behind a match that the trie reported: C26"]


def parts_at_most(t, sep, depth=4):
    """how many pieces splitting t at the character sep gives at most, or None"""
    if t.op == "cond":
        ns = [parts_at_most(l, sep, depth) for l in leaves(t)]
        return None if any(n is None for n in ns) else max(ns)
    if t.op == "str":
        return t.args[0].count(chr(sep)) + 1
    if t.op == "call" and t.args[0] in ("slice::join", "Itertools::join") and t.args[2] is STR(chr(sep)):
        a = t.args[1]
        n = length(a)
        if n.op == "int" and all(clean(x, sep) for x in pieces(a)):
            return max(n.args[0], 1)
    return None


def pieces(a):
    """what the elements of a list may be"""
    if a.op == "arr":
        return list(a.args)
    if a.op == "mapd":
        return pieces(a.args[0]) + [a.args[2]]
    if a.op == "updi":
        return pieces(a.args[0]) + [a.args[2]]
    if a.op == "cond":
        return [x for l in leaves(a) for x in pieces(l)]
    return [a]


def clean(x, sep):
    """x does not contain the character sep"""
    if x.op == "cond":
        return all(clean(l, sep) for l in leaves(x))
    if x.op == "str":
        return chr(sep) not in x.args[0]
    if x.op == "idx" and x.args[0].op == "call" and x.args[0].args[0] in ("str::split", "str::splitn") and len(x.args[0].args) == 3:
        return x.args[0].args[0] == "str::split" and x.args[0].args[2] in (INT(sep), STR(chr(sep)))
    return False


def stored(c, cache, adt_hint, name):
    """the values the constructors give a field of a setting"""
    w = c.w()
    out = []
    for k, f in cs.workspace_fns(w):
        if not k.startswith("lindera_filter::") or "{closure" in k:
            continue
        if str(f.d.get("impl_self") or "").split("::")[-1].strip(">") != adt_hint:
            continue
        if adt_hint not in str(f.locals[0].get("ty")) or f.d.get("exp"):
            continue
        try:
            r = c.analyse(k, "all")
        except Undecided:
            return None
        for l in leaves(r.ret):
            if l.op == "adt" and l.args[1] == "Err":
                continue
            x = field(l, "0", "Ok") if "Result<" in str(f.locals[0].get("ty")) else l
            out.append(field(x, name))
    return out


def as_given(y):
    """stored as the user wrote it"""
    while y.op == "f":
        y = y.args[0]
    return y.op == "par" or y.op == "call" and y.args[0].startswith(("serde_json::from_", "Value::"))


def setting_facts(c, fn):
    """facts about the parts of stored settings"""
    f = c.w().fns[fn]
    me = str(f.d["impl_self"]).split("<")[0].split("::")[-1]
    seen = {}

    def bound(t):
        """t is a stored string: self.config.NAME[.Some@0]"""
        names = []
        u = t
        while u.op == "f":
            names.append(u.args[2])
            u = u.args[0]
        if u is not SELF or len(names) < 2:
            return None
        names.reverse()
        owner = me + "Config" if names[0] == "config" else None
        if owner is None:
            return None
        return owner, names[1]

    def known(m):
        if m.op == "len" and m.args[0].op == "call" and m.args[0].args[0] == "str::split" and m.args[0].args[2].op == "int":
            x = m.args[0].args[1]
            b = bound(x)
            if b is None:
                return
            key = (b, m.args[0].args[2].args[0])
            if key not in seen:
                seen[key] = None
                vals = stored(c, seen, *b)
                ns = []
                for v in vals or ():
                    for l in leaves(v):
                        if l.op == "adt" and l.args[1] == "None":
                            continue
                        y = field(l, "0", "Some") if l.op == "adt" and l.args[1] == "Some" else l
                        ns.append(99 if as_given(y) else parts_at_most(y, key[1]))
                if ns and None not in ns:
                    seen[key] = max(ns)
                else:
                    raise Undecided("parts of the setting %s are unknown" % show(x, 5))
            return [sub(INT(seen[key]), m)]
    return known


def reported(p):
    """the key looked up is what the trie matched"""
    return p.kind == "map-index" and any(u.op == "call" and u.args[0].endswith("common_prefix_search") for t in p.detail for u in subterms(t))


def lookups(r, what):
    """keys looked up without a test are whole matches, and no match across NUL"""
    n = 0
    for p in r.panics:
        if p.guard is FALSE or not reported(p):
            continue
        key = uncast(p.detail[1])
        decided(key.op == "slice", "%s: key looked up: %s" % (what, show(key, 5)))
        v, a, b = key.args
        xs = Cuts(()).lengths(v, a, b)
        decided(xs, "%s: key looked up: %s" % (what, show(key, 6)))
        for x in xs:
            if x.op == "f" and x.args[0].op == "idx" and x.args[0].args[0].op == "call" and x.args[0].args[0].args[0] in SEARCH:
                raise Violated("%s: a match across a NUL character, which no key contains, is looked up in the table" % what)
            s = prefix_match(x)
            if s is None or not Cuts(()).at(s, v, a):
                odd = [u for u in vocab(x) if u not in KNOWN and u not in SEARCH]
                decided(not odd, "%s: key looked up: %s" % (what, show(key, 6)))
                raise Violated("%s: the key looked up without a test is %s, which is not a match" % (what, show(key, 6)))
            q = x.args[0].args[0]
            if q.op == "coll":
                e = index(q.args[0].args[0].args[0], mk("k", q.args[0]))
                keep = maptree(q.args[1], lambda l: bconst(l.op != "seq" or bool(l.args)))
                drops_nul(keep, slice_(v, a, add(a, field(e, "1"))), "%s: a match" % what)
        n += 1
    return n


def check_cuts(c, r, what, searches=()):
    q = Cuts(r.loops, searches)
    n = 0
    und = None
    for p in r.panics:
        if p.kind != "event:cut" or p.guard is FALSE:
            continue
        v, a, b = p.detail
        for x in (a, b):
            k = q.cut(v, x, as_bool(p.guard))
            if k is False:
                raise Violated("%s: %s is cut at %s (in %s), which need not be a character boundary" % (what, show(v, 5), show(x, 6), cs.short(p.fn)))
            if k is None:
                und = und or "%s: %s is cut at %s" % (what, show(v, 4), show(x, 6))
            n += 1
    decided(und is None, und)
    return n


def check(c):
    w = c.w()
    tot = [0, 0, 0]
    n = 0
    for tr in ("TokenFilter", "CharacterFilter"):
        for name, key in sorted(filters(c, tr).items()):
            n += 1

            def go(key=key, name=name):
                r = c.analyse(key, "all")
                a, b = judge(c, r, name, skip_internal=False, extra=(setting_facts(c, key),), skip=(reported,))
                tot[0] += a
                tot[1] += b
                lookups(r, name)
                return "%d accesses cannot fail" % a

            def cuts(key=key, name=name):
                m = check_cuts(c, c.analyse(key, "all"), name)
                tot[2] += m
                return "%d cuts" % m
            c.ob(name, go)
            c.ob(name + " cuts", cuts)
    c.floor("filters", n, 21)
    c.counts["accesses proved"] = tot[0]
    c.counts["accesses left to C26"] = tot[1]
    c.counts["text positions proved to be character boundaries"] = tot[2]
