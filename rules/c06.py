"""C06. From both dictionary builders the analysis derives the value packed for a surface in
terms of its start position and entry count, and from both lookup functions how position and
count are unpacked; the rule compares shift and mask, that the start position is the number
of entries of the surfaces before it in the order the entries are written, and that more
entries than the mask can hold end the build with an error."""
from .common import *


def packed(v):
    """(count, start, shift) of count | start<<shift"""
    v = strip_cast(v)
    if v.op == "call" and v.args[0] in ("bin",):
        pass
    if v.op == "bin" and v.args[0] in ("BitOr", "BitXor"):
        x, y = v.args[1], v.args[2]
    else:
        c0, ts = lin_parts(v)
        decided(c0 == 0 and len(ts) == 2, "packed as %s" % show(v, 5))
        x, y = [mulc(t, k) for t, k in ts]
    for a, b in ((x, y), (y, x)):
        c0, ts = lin_parts(strip_cast(b))
        if b.op == "bin" and b.args[0] == "Shl" and b.args[2].op == "int":
            return strip_cast(a), strip_cast(b.args[1]), b.args[2].args[0]
        if c0 == 0 and len(ts) == 1 and ts[0][1] > 1 and ts[0][1] & (ts[0][1] - 1) == 0:
            return strip_cast(a), strip_cast(ts[0][0]), ts[0][1].bit_length() - 1
    raise Undecided("packed as %s" % show(v, 6))


def flattened(EL, groups):
    """the loop runs over the entries of all groups, group after group"""
    src = EL.args[0].args[0] if EL.args[0].op == "over" else None
    if src is None or src.op != "coll" or norm(src.args[0].args[0]) is not norm(mk("over", groups)):
        return False
    t = src.args[1]
    return t.op == "seq" and len(t.args) == 1 and t.args[0].op == "spl" and \
        norm(t.args[0].args[0]) is norm(field(index(groups, mk("k", src.args[0])), "1"))


def unpacked(c, name):
    """(shift, mask) a lookup function uses"""
    r = c.analyse(name, crate="lindera_core")
    hits = [u for u in subterms(r.ret) if u.op == "bin" and u.args[0] in ("Shr", "BitAnd", "Rem", "Div")]
    sh = mask = val = None
    for u in hits:
        a, b = u.args[1], u.args[2]
        if u.args[0] == "BitAnd":
            m, x = (a, b) if a.op == "int" else (b, a)
            decided(m.op == "int", "mask %s" % show(m))
            require(mask in (None, m.args[0]), "two masks in %s" % name)
            mask = m.args[0]
        elif u.args[0] == "Rem" and b.op == "int":
            mask, x = b.args[0] - 1, a
        elif u.args[0] == "Div" and b.op == "int" and b.args[0] & (b.args[0] - 1) == 0:
            sh, x = b.args[0].bit_length() - 1, a
        elif u.args[0] == "Shr" and b.op == "int":
            require(sh in (None, b.args[0]), "two shifts in %s" % name)
            sh, x = b.args[0], a
        else:
            continue
        x = strip_cast(x)
        require(val in (None, x), "%s takes position and count from different values" % name)
        val = x
    decided(sh is not None and mask is not None, "%s: shift and mask not found (%s)" % (name, [show(h, 4) for h in hits]))
    # the count must be the number of entries yielded
    w = c.w()
    loops = {u.args[0] for u in subterms(r.ret) if u.op == "L"}
    cnt = [l for l in loops if l.op == "range"]
    decided(len(cnt) == 1, "%s does not yield a range of entries" % name)
    lo, hi = cnt[0].args[0], cnt[0].args[1]
    good = False
    for u in hits:
        if u.args[0] in ("BitAnd", "Rem") and strip_cast(hi) is u and lo is INT(0):
            good = True
    require(good, "%s yields the entries %s..%s of a surface" % (name, show(lo, 4), show(hi, 5)))
    return sh, mask, r


def check(c):
    st = {}

    def pack(kind):
        def go():
            if kind == "system":
                r, f = system(c)
                from .c05 import unwrap_da_of
                pairs = unwrap_da_of(f["dict.da"])
                ent = f["dict.vals"].items
            else:
                r, d = user(c)
                pairs, ent = unwrap_da(d["dict.da"]), bytes_of(d["dict.vals"])
            decided(pairs.op == "coll" and pairs.args[1].op == "seq" and len(pairs.args[1].args) == 1,
                    "pairs of the surface index: %s" % show(pairs, 4))
            L = pairs.args[0]
            e = pairs.args[1].args[0].args[0]
            src = index(L.args[0].args[0], mk("k", L))
            key = field(e, "0")
            require(key is field(src, "0"), "the key stored for a surface is %s" % show(key, 5))
            n = length(field(src, "1"))
            try:
                cnt, start, sh = packed(field(e, "1"))
            except Undecided:
                # not of the usual form: the value the lookup takes apart
                sh, mask, _ = unpacked(c, "PrefixDict::prefix")
                same(uncast(field(e, "1")), add(n, mulc(psum(L, n, mk("k", L)), 1 << sh)), "value stored for a surface")
                cnt, start = n, psum(L, n, mk("k", L))
            same(strip_cast(cnt), n, "entry count of a surface")
            # start = sum of the counts of the surfaces before
            decided(start.op == "psum" or start.op == "int" or unresolved(start) is None, "start position: %s" % show(start, 5))
            if start.op == "psum":
                require(start.args[0] is L and start.args[2] is mk("k", L), "start position sums over %s" % show(start, 4))
                same(strip_cast(start.args[1]), n, "step of the start position")
            else:
                same(start, psum(L, n, mk("k", L)), "start position of a surface")
            EL, body = one_loop(ent, "entry table")
            if flattened(EL, L.args[0].args[0]):
                e = index(EL.args[0].args[0], mk("k", EL))
                decided(all(b.val is not None and contains(b.val, e) for b in body), "entries of a surface are written as %s" % body)
                st[kind] = sh
                return "count | start << %d, entries in the same order, in one loop" % sh
            require(norm(EL.args[0]) is norm(L.args[0]), "entries are written in the order of %s, positions are counted in the order of %s" %
                    (show(EL, 5), show(L, 5)))
            require(len(body) == 1 and body[0].kind == "each" and body[0].loop.args[0].op == "over",
                    "entries of a surface are written as %s" % body)
            same(body[0].loop.args[0].args[0], field(index(EL.args[0].args[0], mk("k", EL)), "1"), "entries written for a surface")
            st[kind] = sh
            return "count | start << %d, entries in the same order" % sh
        return go

    def lookup(name):
        def go():
            sh, mask, r = unpacked(c, name)
            for kind in ("system", "user"):
                if kind in st:
                    require(st[kind] == sh, "%s shifts by %d, the %s builder by %d" % (name, sh, kind, st[kind]))
            require(mask == (1 << sh) - 1, "%s takes the count with mask %d below a position shifted by %d" % (name, mask, sh))
            st["mask"] = mask
            if name.endswith("find_surface"):
                key = mk("par", fn_params(c, r.key)[1])
                for a in atoms(r.ret):
                    if a.op == "pos" and contains(a, length(key)) and not any(u.op == "call" for u in subterms(a)):
                        for val in (True, False):
                            t = assume(r.ret, a, val)
                            require(t.op != "arr" or t.args, "no surface with %s is found" % show(a if val else NOT(a), 4))
            # position of the entries
            ent = [u for u in subterms(r.ret) if u.op == "adt" and u.args[0].endswith("WordEntry")]
            for e in ent:
                rs = reads(e)
                decided(bool(rs), "entry not read")
                lo = min(rs, key=lambda x: lin_parts(x[3])[0])
                c0, ts = lin_parts(lo[3])
                ks = [t for t, k in ts if t.op == "k"]
                shr = [t for t, k in ts if t.op == "bin" and t.args[0] in ("Shr", "Div")]
                oth = [t for t, k in ts if t not in ks and t not in shr]
                require(len(ks) == 1 and len(shr) == 1 and not oth and ts[0][1] == ts[1][1],
                        "%s reads entry i of a surface at %s" % (name, show(lo[3], 6)))
            return "start = value >> %d, count = value & %d, entry i at start + i" % (sh, mask)
        return go

    def reject(kind):
        def go():
            nm = {"system": "DictBuilder::build", "user": "UserDictBuilder::build"}[kind]
            r = c.analyse(nm, "all", crate="lindera_dictionary_builder")
            err = [u for u in subterms(isv(r.ret, RESULT, "Ok")) if u.op in ("exists", "pos")]
            best = None
            lim = st.get("mask", (1 << st[kind]) - 1)
            for u in subterms(isv(r.ret, RESULT, "Ok")):
                if u.op == "pos":
                    c0, ts = lin_parts(u.args[0])
                    if len(ts) == 1 and ts[0][1] == 1 and ts[0][0].op == "len" and ts[0][0].args[0].op == "f" and \
                            any(g.op == "call" and g.args[0] == "group" for g in subterms(ts[0][0])):
                        best = -c0
                        len_term = ts[0][0]
                        require(best <= lim, "a surface with %d entries is stored, the count holds at most %d" % (best, lim))
                        require(best >= lim, "a surface with %d entries is rejected although the count holds %d" % (best + 1, lim))
            if best is None:
                # a conversion that checks the range would do as well
                tr = [u for u in subterms(r.ret) if u.op == "call" and "group" in vocab(u) and u.args[0].startswith("try_")]
                decided(not tr, "count is converted with %s" % [show(t, 3) for t in tr])
                mn = [u for u in subterms(isv(r.ret, RESULT, "Ok")) if u.op in ("pos", "zero") and "group" in vocab(u)]
                decided(not mn, "entries of a surface are tested with %s" % [show(t, 5) for t in mn])
                raise Violated("no check that a surface has at most %d entries before the count is stored" % lim)
            ok = isv(r.ret, RESULT, "Ok")
            atom = pos(sub(len_term, INT(best)))
            good = assume(ok, atom, True) is FALSE
            for u in subterms(ok):
                if u.op == "exists" and assume(u.args[1], atom, True) is TRUE and assume(ok, u, True) is FALSE:
                    good = True
            decided(good, "the test for too many entries does not always end the build: %s" % show(ok, 6))
            return "more than %d entries of one surface: error" % best
        return go

    for kind in ("system", "user"):
        c.ob("pack " + kind, pack(kind))
    c.ob("lookup prefix", lookup("PrefixDict::prefix"))
    c.ob("lookup exact", lookup("PrefixDict::find_surface"))
    for kind in ("system", "user"):
        if kind in st:
            c.ob("too many entries " + kind, reject(kind))
