"""C29. The analysis derives what one line of char.def does to the builder's tables (the
category index, the definitions and the ranges), what the finished tables are, and how the
finished definitions are looked up.  The rule: an id is handed out only as the number of
categories already known and never changed; a definition is stored at the id of its own
name from its own columns; a second definition of a name and a name without definition make
parsing fail; names, definitions and unknown word lists are all stored at the category's
id; ranges are stored with both of the bounds of their line; the lookup table changes
values exactly at a range's first character and after its last, with the categories of all
ranges containing the boundary or else the default category."""
from .common import *
from .c05 import elements
from .c27 import method
from .c28 import column, encoded_in
from .c40 import DROPS

CD = "CharacterDefinitions"
B = "CharacterDefinitionsBuilder"


def leaf_steps(r, mu):
    for l in r.loops:
        if mu in l.steps:
            return l, l.steps[mu], l.inits[mu]
    raise Undecided("loop of %s not found" % show(mu, 2))


def intern_ok(m, k, v):
    """v is the id of name k in map m, a new one if k is not in m: its number"""
    if v.op == "atkey":
        require(v.args[0] is m and v.args[1] is k, "the id of %s is looked up as %s" % (show(k, 3), show(v, 5)))
        d = v.args[2]
    else:
        raise Undecided("id of a category is %s" % show(v, 5))
    n = strip_cast(field(d, "0"))
    require(n is length(m), "a new category gets the id %s instead of the number of known categories" % show(n, 5))


def interning(r, t, base, depth=0):
    """every way t differs from the map `base` is by interning names"""
    for lf in leaves(t):
        x = lf
        while x.op == "updk":
            intern_ok(x.args[0], x.args[1], x.args[2])
            x = x.args[0]
        if x is base:
            continue
        if x.op == "fin" and depth < 4:
            l, step, init = leaf_steps(r, x.args[0])
            decided(init is base or init.op == "mu", "category index starts as %s" % show(init, 4))
            interning(r, step, x.args[0], depth + 1)
            continue
        raise Undecided("category index becomes %s" % show(lf, 4))


SPACES = ("str::split_whitespace", "str::split_ascii_whitespace")


def columns_of_line(row):
    """the columns come from a whole line of the file, up to a comment"""
    base = row.args[0] if row.op == "slice" else row
    if base.op != "call" or base.args[0] not in SPACES:
        return
    t = base.args[1]
    for u in subterms(t):
        if u.op != "call" or len(u.args) < 3 or not u.args[0].startswith("str::"):
            continue
        what = u.args[0][5:]
        if what in ("split", "splitn", "split_once", "find", "split_terminator"):
            pat = u.args[-1]
            cs = [pat] if pat.op in ("int", "str") else list(pat.args) if pat.op == "arr" else None
            if cs is None or not all(x.op in ("int", "str") for x in cs):
                continue
            for x in cs:
                require(x in (INT(35), STR("#")), "a line is cut at %s, only a comment may be left out" %
                        (repr(chr(x.args[0])) if x.op == "int" else repr(x.args[0])))
        if what in ("replace", "to_lowercase", "to_uppercase", "to_ascii_uppercase", "to_ascii_lowercase"):
            raise Violated("a line is changed with %s before it is read" % u.args[0])


def check(c):
    c.w()
    st = {}

    def build():
        r = c.analyse(method(c, B, "build"), "all")
        v = r.ret
        decided(v.op == "adt" and v.args[0].endswith(CD), "build returns %s" % show(v, 4))
        st["build"], st["r"] = v, r
        d = field(v, "category_definitions")
        src = d.args[0].args[0] if d.op == "coll" else None
        decided(src is not None and src.op == "over" and src.args[0].op == "f", "definitions are %s" % show(d, 5))
        src = src.args[0]
        k = mk("k", d.args[0])
        x = index(src, k)
        some = assume_all(d.args[1], isv(x, OPTION, "Some"))
        es = elements(some)
        require(len(es) == 1 and es[0] is field(x, "0", "Some"), "the definition with id k becomes %s" % show(some, 5))
        st["def"] = src
        names = field(v, "category_names")
        maps = {u for u in subterms(names) if u.op == "call" and u.args[0] == "map_iter"}
        if names.op == "fin":
            l, step, init = leaf_steps(r, names.args[0])
            decided(step.op == "updi" and step.args[0] is names.args[0], "category names become %s" % show(step, 5))
            m = l.L.args[0].args[0] if l.L.args[0].op == "over" else None
            decided(m is not None and m.op == "call" and m.args[0] == "map_iter", "category names are filled from %s" % show(l.L, 5))
            ent = index(m, mk("k", l.L))
            same(strip_cast(step.args[1]), field(field(ent, "1"), "0"), "place of a category name")
            same(step.args[2], field(ent, "0"), "category name")
            same(length(init), length(m.args[1]), "number of category names")
            st["idx"] = m.args[1]
        elif names.op == "coll":
            src = names.args[0].args[0].args[0]
            es = elements(names.args[1])
            decided(src.op == "call" and src.args[0] == "sorted" and len(es) == 1, "category names are %s" % show(names, 5))
            m, by = src.args[1], src.args[2]
            decided(m.op == "call" and m.args[0] == "map_iter", "category names are %s" % show(names, 5))
            require(es[0] is field(index(src, mk("k", names.args[0])), "0"), "category names are %s" % show(es[0], 5))
            b = by.args[0]
            require(b in (field(mk("sym", "x"), "1"), field(field(mk("sym", "x"), "1"), "0")), "category names are ordered by %s" % show(by))
            st["idx"] = m.args[1]
        else:
            if any(u.op == "call" and u.args[0] == "map_iter" for u in subterms(names)):
                require(names.op != "call" or names.args[0] != "map_iter", "category names are in the order of the hash table")
            raise Undecided("category names are %s" % show(names, 5))
        return "names and definitions are at the category's id"

    def lookup_table():
        v = st["build"]
        r = st["r"]
        t = field(v, "mapping")
        bs, vals = field(t, "boundaries"), field(t, "values")
        vals_all = leaves(vals)
        decided(all(x.op == "coll" for x in vals_all) and len(vals_all) == 1, "the table's values are %s" % show(vals, 4))
        # boundaries: every range's first character, and the character after its last
        sets = {u for u in subterms(bs) if u.op == "coll"}
        outer = [u for u in sets if not any(u is not x and contains(x, u) for x in sets)]
        decided(len(outer) == 1, "boundaries are %s" % show(bs, 5))
        L, body = outer[0].args[0], outer[0].args[1]
        src = L.args[0].args[0]
        decided(src.op == "f", "boundaries are taken from %s" % show(L, 4))
        x = index(src, mk("k", L))
        some_left_out(body)
        got = {e.args[1] if e.op == "item" and e.args[0] == "insert" else e for e in elements(body)}
        decided(all(unresolved(e) is None for e in got), "boundaries are %s" % [show(e) for e in got])
        lo = [e for e in got if e.op == "f" and e.args[0] is x]
        hi = [sub(e, INT(1)) for e in got if e not in lo]
        decided(len(got) <= 2, "boundaries are %s" % [show(e, 5) for e in got])
        require(len(lo) == 1 and len(hi) == 1 and hi[0].op == "f" and hi[0].args[0] is x and hi[0] is not lo[0],
                "values change at %s, expected the first character of a range and the one after its last" % [show(e, 5) for e in got])
        st["lo"], st["hi"] = lo[0].args[2], hi[0].args[2]
        for lf in leaves(bs):
            decided(lf.op == "call" and lf.args[0] == "sorted", "boundaries are not sorted: %s" % show(lf, 4))
            inner = lf.args[1]
            g = cond_of(bs, lf)
            zero_in = any(i.args[0] == "push" and i.args[1] is INT(0) for i in chain(inner)[1])
            has0 = any(a.op in ("call", "pure") or "contains" in show(a, 2) for a in atoms(g)) if g is not TRUE else False
            require(zero_in or has0, "the table has no value for the first characters")
        st["ranges"], st["bounds"] = src, bs
        # values: index i holds the categories at boundary i
        L = vals_all[0].args[0]
        e = elements(vals_all[0].args[1])
        decided(len(e) == 1, "the table's values are %s" % show(vals, 5))
        e = e[0]
        st["value"], st["vloop"] = e, L
        return "boundaries at first and after last character of every range"

    def some_left_out(body):
        """a character beyond a range has a value of its own, unless it is the last character"""
        for e in body.args if body.op == "seq" else ():
            a = e.args[0] if e.op == "spl" else None
            if a is None or a.op != "cond" or not all(l.op == "arr" for l in leaves(a)):
                continue
            every = {y for l in leaves(a) for y in l.args}
            ends = {u for y in every for u, n in lin_parts(y)[1] if n == 1 and lin_parts(y)[0] == 1}
            for top in (0x20, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFE):
                t = subst(a, {u: INT(top) for u in ends})
                n = subst(mk("arr", *[y for y in every if ends & set(subterms(y))]), {u: INT(top) for u in ends})
                for l in leaves(t):
                    require(all(y in l.args for y in n.args), "the value does not change after a range that ends at %#x" % top)

    def cond_of(t, leaf):
        return maptree(t, lambda x: TRUE if x is leaf else FALSE) if t.op == "cond" else TRUE

    def categories_at():
        r, e = st["r"], st["value"]
        # default category
        fins = {u for u in subterms(e) if u.op == "fin"}
        mus = set()
        for u in fins:
            mus.add(u.args[0])
        decided(len(mus) == 1, "categories of a character are %s" % show(e, 6))
        mu = mus.pop()
        got = mk("fin", mu) if mk("fin", mu) in fins else fins.pop()
        empty = as_bool(zero(length(got)))
        none = assume_all(e, NOT(empty))
        require(none is got, "characters in a range get %s" % show(none, 6))
        dflt = assume_all(e, empty)
        look = [u for u in subterms(dflt) if u.op == "call" and u.args[0] in ("map_get", "map_at")]
        require(bool(look), "characters in no range get %s instead of the default category" % show(dflt, 6))
        for u in look:
            require(u.args[1] is st["idx"] and u.args[2].op == "str" and u.args[2].args[0] == "DEFAULT",
                    "characters in no range get the category %s" % show(u, 5))
        yes = assume_all(dflt, isv(look[0], OPTION, "Some")) if look[0].args[0] == "map_get" else dflt
        b, its = chain(yes)
        require(b in (got, mk("arr")) and len(its) == 1 and its[0].args[0] == "push", "characters in no range get %s" % show(yes, 6))
        # categories of the ranges
        l, step, init = leaf_steps(r, mu)
        decided(l.L.args[0].op == "over" and l.L.args[0].args[0] is st["ranges"], "categories are collected over %s" % show(l.L, 4))
        x = index(st["ranges"], mk("k", l.L))
        lo, hi = field(x, st["lo"]), field(x, st["hi"])
        pts = set()
        for a in atoms(step):
            if a.op == "pos":
                t = a.args[0]
                for side, s in ((lo, 1), (hi, 1)):
                    if contains(t, side):
                        pts.add(a)
        decided(bool(pts), "ranges are tested by %s" % [show(a, 5) for a in atoms(step)][:4])
        # each boundary value of the table yields its own test; they must all have the same form
        bounds = {u for a in pts for u in subterms(a) if u.op == "idx" and u.args[0].op == "call" and u.args[0].args[0] == "sorted"}
        decided(bool(bounds), "ranges are compared with %s" % [show(a, 6) for a in pts])
        for bnd in bounds:
            sel = [a for a in pts if contains(a, bnd)]
            out = OR(pos(sub(lo, bnd)), pos(sub(bnd, hi)))
            gs = [a for a in atoms(step) if a not in pts]
            t = step
            # choose the branch in which this boundary is tested
            for g in gs:
                for val in (True, False):
                    u = assume(t, g, val)
                    if any(a in sel for a in atoms(u)) and not any(a in pts and a not in sel for a in atoms(u)):
                        t = u
                        break
            away = assume_all(t, out)
            here = assume_all(t, NOT(out))
            require(away is mu, "a range that does not contain the character adds %s" % show(away, 6))
            require(here is not mu, "a range that contains the character adds nothing")
            for a in atoms(here):
                require(a not in pts, "a range that contains the character is used only if %s" % show(a, 6))
            st["inner"] = here
        decided(here.op == "fin", "the categories of a range are added as %s" % show(here, 5))
        l2, step2, init2 = leaf_steps(r, here.args[0])
        src = l2.L.args[0].args[0]
        decided(src.op == "f" and src.args[2] not in (st["lo"], st["hi"]), "the categories of a range are added from %s" % show(l2.L, 5))
        m2 = here.args[0]
        st["cats"] = src.args[2]
        cat = index(src, mk("k", l2.L))
        for lf in leaves(step2):
            if lf is m2:
                g = cond_of(step2, lf)
                require(subsumes(g, as_bool(pure("contains", m2, cat))), "a category of a range is left out if %s" % show(g, 6))
                continue
            b, its = chain(lf)
            require(b is m2 and len(its) == 1 and its[0].args[0] == "push" and its[0].args[1] is cat,
                    "the categories of a range are added as %s" % show(lf, 6))
        return "categories of all ranges containing the boundary, in order, else DEFAULT"

    def subsumes(g, h):
        return AND(g, NOT(h)) is FALSE

    def parse():
        r = c.analyse(method(c, B, "parse"), "all")
        ok = isv(r.ret, RESULT, "Ok")
        fs = restrict(r.final("self"), ok)
        st["p"], st["pok"], st["pself"] = r, ok, fs
        name = lambda t: t.args[2]
        idx, dfn, rng = [field(fs, name(st[n])) for n in ("idx", "def", "ranges")]
        st["pidx"], st["pdef"], st["prng"] = idx, dfn, rng
        decided(idx.op == "fin", "the category index ends as %s" % show(idx, 4))
        l, step, init = leaf_steps(r, idx.args[0])
        interning(r, step, idx.args[0])
        return "a new name gets the number of known names, known names keep theirs"

    def definition():
        r, dfn, idx = st["p"], st["pdef"], st["pidx"]
        decided(dfn.op == "fin", "the definitions end as %s" % show(dfn, 4))
        mu = dfn.args[0]
        l, step, init = leaf_steps(r, mu)
        _, istep, _ = leaf_steps(r, idx.args[0])
        n = 0
        for lf in leaves(step):
            if lf is mu:
                continue
            decided(lf.op == "updi", "definitions become %s" % show(lf, 5))
            base, at, val = lf.args
            b0 = base
            decided(b0 is mu or (b0.op == "mut" and b0.args[0] == "Vec::resize" and b0.args[2][0] is mu),
                    "definitions become %s" % show(lf, 5))
            if b0 is not mu:
                require(b0.args[2][1] is add(at, INT(1)), "definitions are extended to %s for id %s" % (show(b0.args[2][1], 5), show(at, 4)))
            require(val.op == "adt" and val.args[1] == "Some", "a definition becomes %s" % show(val, 5))
            d = field(val, "0", "Some")
            at0 = at.args[0] if at.op == "f" else at
            decided(at0.op == "atkey", "a definition is stored at %s" % show(at, 5))
            intern_ok(at0.args[0], at0.args[1], at0)
            row, m = column(at0.args[1])
            columns_of_line(row)
            require(m == 0, "the definition of a category is stored under the name in column %d" % m)
            for f, cn, flag in (("invoke", 1, True), ("group", 2, True), ("length", 3, False)):
                v = field(d, f)
                if flag:
                    x = list(dict.fromkeys(u for u in subterms(v) if u.op == "call" and u.args[0].startswith("parse<")))
                    require(len(x) < 2 or not unresolved(v) is None, "%s depends on %d columns: %s" % (f, len(x), show(v, 5)))
                    decided(len(x) == 1, "%s is %s" % (f, show(v, 5)))
                    rw, m = column(x[0])
                    num = field(x[0], "0", "Ok")
                    require(m == cn, "%s is read from column %d" % (f, m))
                    require(as_bool(v) is as_bool(zero(sub(num, INT(1)))) or (as_bool(v) is NOT(as_bool(zero(num)))),
                            "%s is %s" % (f, show(v, 5)))
                else:
                    rw, m = column(v)
                    require(m == cn, "%s is read from column %d" % (f, m))
                require(rw is row, "%s is read from another line" % f)
            # a second definition of the same name ends the loop with an error
            g = cond_of(step, lf)
            again = AND(g, l.cont)
            old = index(base, at)
            left = restrict(again, isv(old, OPTION, "Some"))
            require(left is FALSE or assume_all(again, isv(old, OPTION, "Some")) is FALSE,
                    "a second definition of a category replaces the first")
            n += 1
            cols = [a for a in atoms(AND(g, l.cont)) if a.op in ("zero", "pos") and contains(a, length(row))]
            require(bool(cols), "definitions with any number of columns are accepted")
        require(n > 0, "no definition is stored")
        return "%d ways, at the id of the line's own name" % n

    def undefined():
        r, idx, dfn = st["p"], st["pidx"], st["pdef"]
        for u in subterms(st["pok"]):
            if u.op == "exists" and u.args[0].args[0].op == "over":
                m = u.args[0].args[0].args[0]
                if m.op == "call" and m.args[0] == "map_iter" and m.args[1] is idx:
                    ent = index(m, mk("k", u.args[0]))
                    i = field(field(ent, "1"), "0")
                    cnd = u.args[1]
                    short = pos(add(sub(i, length(dfn)), INT(1)))
                    undef = isv(index(dfn, i), OPTION, "None")
                    require(assume_all(cnd, as_bool(short)) is TRUE, "an undefined category is rejected only if %s" % show(cnd, 6))
                    require(assume_all(assume_all(cnd, NOT(as_bool(short))), undef) is TRUE,
                            "an undefined category is rejected only if %s" % show(cnd, 6))
                    bad = assume(st["pok"], u, True)
                    require(bad is FALSE, "an undefined category is accepted if %s" % show(bad, 5))
                    return "every name known after the last line has a definition"
        names = {u for u in subterms(st["pok"]) if u.op == "exists"}
        decided(all(unresolved(u.args[0]) is None for u in names), "categories are tested by %s" % [show(u, 4) for u in names])
        raise Violated("a category that is used but never defined is accepted")

    def ranges():
        r, rng = st["p"], st["prng"]
        if rng.op == "fin":
            l, step, init = leaf_steps(r, rng.args[0])
            for lf in leaves(step):
                require(lf.op != "updi" or lf.args[0] is not rng.args[0], "the range of an earlier line is replaced: %s" % show(lf, 4))
                drops = {u.args[0] for u in subterms(lf) if u.op == "mut" and u.args[0] in DROPS}
                require(not drops, "ranges of earlier lines are removed with %s" % sorted(drops))
                b, its = chain(lf)
                require(b is rng.args[0] or contains(b, rng.args[0]), "ranges of earlier lines are lost: %s" % show(lf, 5))
        b, its = chain(rng)
        cs = [u for i in its for u in [i.args[1]] if u.op == "coll"] if its else ([rng] if rng.op == "coll" else [])
        decided(len(cs) == 1, "ranges end as %s" % show(rng, 5))
        body = cs[0].args[1]
        es = elements(body)
        require(len(es) >= 1, "no range is stored")
        for e in es:
            lo, hi, cats = field(e, st["lo"]), field(e, st["hi"]), field(e, st["cats"])
            f0 = [u for u in subterms(lo) if u.op == "idx" and u.args[0].op == "call" and u.args[0].args[0] == "str::split"
                  and u.args[0].args[2].op == "str"]
            f0 = {(u.args[0], u.args[1]) for u in f0}
            decided(len(f0) == 1, "the first character of a range is %s" % show(lo, 8))
            (parts, at) = f0.pop()
            require(at is INT(0), "the first character of a range is bound %s of the line" % show(at))
            two = as_bool(zero(sub(length(parts), INT(2))))
            one = as_bool(zero(sub(length(parts), INT(1))))
            h1, h2 = assume_all(assume_all(hi, one), NOT(two)), assume_all(assume_all(hi, NOT(one)), two)
            require(h1 is lo or h1 is assume_all(assume_all(lo, one), NOT(two)), "a single character's range ends at %s" % show(h1, 8))
            l2 = assume_all(assume_all(lo, NOT(one)), two)
            want = subst(l2, {index(parts, INT(0)): index(parts, INT(1))})
            same(h2, want, "last character of a range")
            decided(parts.args[1].op == "idx", "bounds are taken from %s" % show(parts, 5))
            row, m = parts.args[1].args
            columns_of_line(row)
            require(m is INT(0), "bounds are taken from column %s" % show(m))
            # categories: every following column, interned
            decided(cats.op == "coll", "categories of a range are %s" % show(cats, 5))
            ce = elements(cats.args[1])
            decided(len(ce) == 1 and ce[0].op == "atkey", "categories of a range are %s" % show(cats, 5))
            intern_ok(ce[0].args[0], ce[0].args[1], ce[0])
            nm = ce[0].args[1]
            k = mk("k", cats.args[0])
            require(nm.op == "idx" and nm.args[0] is row and sub(nm.args[1], k) is INT(1), "categories of a range are %s" % show(nm, 6))
            n = loop_len(cats.args[0])
            require(n is not None and sub(length(row), n) is INT(1), "only %s categories of a range are stored" % show(n, 5))
        return "both bounds and all categories of the line"

    def lookups():
        r = c.analyse(method(c, CD, "lookup_definition"))
        same(r.ret, index(field(SELF, "category_definitions"), field(mk("par", "category_id"), "0")), "definition of a category")
        r = c.analyse(method(c, CD, "category_name"))
        same(r.ret, index(field(SELF, "category_names"), field(mk("par", "category_id"), "0")), "name of a category")
        return "by id"

    def evaluate():
        r = c.analyse(method(c, CD, "lookup_categories"))
        m = field(SELF, "mapping")
        bs, vals = field(m, "boundaries"), field(m, "values")
        srch = [u for u in subterms(r.ret) if u.op == "call" and u.args[0] == "slice::binary_search"]
        decided(bool(srch), "categories of a character are found by %s" % show(r.ret, 6))
        s = pure("slice::binary_search", bs, mk("par", "c"))
        for u in srch:
            require(u.args[1] is not bs or u.args[2] is mk("par", "c") or u.args[2].op != "int",
                    "every character that passes %s is looked up as %s" % ([show(a, 4) for a in atoms(r.ret)][:2], show(u.args[2])))
        decided(set(srch) == {s}, "categories of a character are found by %s" % show(r.ret, 6))
        hit = assume_all(r.ret, isv(s, RESULT, "Ok"))
        miss = assume_all(r.ret, isv(s, RESULT, "Err"))
        same(hit, index(vals, field(s, "0", "Ok")), "categories at a boundary")
        same(miss, index(vals, sub(field(s, "0", "Err"), INT(1))), "categories between boundaries")
        return "value of the last boundary not after the character"

    def unk():
        r = c.analyse("UnkBuilder::build", "all", crate="lindera_dictionary_builder")
        f = files(c, r, ["unk.bin"])["unk.bin"]
        v = [i for i in f.items if i.kind in ("serialize", "bytes")][0].val
        for e in encoded_in(v):
            v = e
        refs = field(v, "category_references")
        decided(refs.op == "coll" and len(elements(refs.args[1])) == 1, "unknown words are stored as %s" % show(refs, 4))
        L = refs.args[0]
        src = L.args[0].args[0]
        decided(src.op == "f", "unknown words are collected for %s" % show(L, 4))
        require(src.args[2] == "category_names", "unknown words are collected for %s" % show(src, 4))
        name = index(src, mk("k", L))
        inner = elements(refs.args[1])[0]
        for l in leaves(inner):
            require(l.op != "coll" or inner.op != "cond" or unresolved(l) is not None or contains(l, name),
                    "unknown words of a category may be %s" % show(l, 5))
        decided(inner.op == "coll", "unknown words of a category are %s" % show(inner, 5))
        k = mk("k", inner.args[0])
        body = inner.args[1]
        eqs = [a for a in atoms(body) if contains(a, name)]
        for a in eqs:
            u = a.args[0] if a.op == "b" and isT(a.args[0]) else a
            require(u.op != "call" or u.args[0] not in ("str::starts_with", "str::ends_with", "str::contains", "str::eq_ignore_ascii_case"),
                    "unknown words of a category are chosen by %s" % show(a, 5))
        decided(len(eqs) == 1 and eqs[0].op == "eq", "unknown words of a category are chosen by %s" % [show(a, 5) for a in atoms(body)])
        other = [x for x in eqs[0].args[:2] if x is not name]
        row, m = column(other[0])
        require(m == 0, "unknown words of a category are chosen by column %d" % m)
        yes, no = assume(body, eqs[0], True), assume(body, eqs[0], False)
        require(no.op == "seq" and not no.args, "unknown words of other categories are included")
        es = elements(yes)
        require(len(es) == 1 and strip_cast(es[0]) is k, "an unknown word of a category is entry %s" % show(es[0], 5))
        costs = field(v, "costs")
        decided(costs.op == "coll", "unknown word entries are %s" % show(costs, 4))
        require(norm(costs.args[0]) is norm(inner.args[0]), "entries are stored for %s, referred to over %s" %
                (show(costs.args[0], 4), show(inner.args[0], 4)))
        require(len(elements(costs.args[1])) == 1 and costs.args[1].op == "seq", "entries are stored only if %s" % show(costs.args[1], 4))
        r = c.analyse(method(c, "UnknownDictionary", "lookup_word_ids"))
        same(r.ret, index(field(SELF, "category_references"), field(mk("par", "category_id"), "0")), "unknown words of a category")
        r = c.analyse(method(c, "UnknownDictionary", "word_entry"))
        same(strip_cast(r.ret), index(field(SELF, "costs"), mk("par", "word_id")), "entry of an unknown word")
        return "by the category's name, stored at its id"

    if c.ob("names and definitions", build):
        if c.ob("boundaries of the lookup table", lookup_table):
            c.ob("categories at a boundary", categories_at)
            if c.ob("category ids", parse):
                c.ob("definitions of categories", definition)
                c.ob("undefined categories", undefined)
                if "cats" in st:
                    c.ob("character ranges", ranges)
    c.ob("lookup by id", lookups)
    c.ob("lookup by character", evaluate)
    c.ob("unknown words of a category", unk)
