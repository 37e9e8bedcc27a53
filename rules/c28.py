"""C28. The analysis derives, for an arbitrary source row, the word entry the dictionary
builders make of it and the surface it is stored under - for system lexicons, for user
lexicons in detailed and in simplified form, as the five dictionaries build them, and for
the unknown word definitions.  Conversions that keep a value or fail (parsing, trimming,
widening) are removed; the rule then requires surface, left id, right id and cost to be
exactly columns 0, 1, 2 and 3 of one and the same row, the details to be the columns from
the fifth on, and a simplified row to get the constants configured for it."""
from .common import *
from .c05 import elements, entries_of, unwrap_da_of

COLS = {"left_id": 1, "right_id": 2, "word_cost": 3}
SAFE = ("str::trim", "str::trim_start", "str::trim_end", "str::to_string", "str::to_owned")
BUILDERS = {"ipadic": "lindera_ipadic_builder", "ipadic-neologd": "lindera_ipadic_neologd_builder",
            "unidic": "lindera_unidic_builder", "ko-dic": "lindera_ko_dic_builder",
            "cc-cedict": "lindera_cc_cedict_builder"}


def column(t, norm_ok=False):
    """(row, n) if t is column n of a row, converted without changing its value"""
    to = None
    while True:
        if t.op == "cast":
            to = to or t.args[0]
        t = strip_cast(t)
        if t.op == "f" and t.args[1] in ("Ok", "Some"):
            t = t.args[0]
        elif t.op == "call" and t.args[0].startswith("parse<"):
            ty = t.args[0][6:-1]
            if to in WIDTH and ty in WIDTH and WIDTH[ty] > WIDTH[to]:
                raise Violated("a column is read as %s and cut to %s: numbers out of range are changed silently" % (ty, to))
            t = t.args[1]
        elif t.op == "call" and t.args[0] in SAFE:
            t = t.args[1]
        elif t.op == "call" and t.args[0] == "str::replace" and norm_ok:
            t = t.args[1]
        elif t.op == "call" and t.args[0] == "map_err":
            t = t.args[1]
        else:
            break
    if t.op == "idx" and t.args[1].op == "int":
        return t.args[0], t.args[1].args[0]
    if t.op in ("lin", "int", "str") or (t.op == "call" and t.args[0] in ("str::replace", "neg", "min", "max", "abs")):
        raise Violated("the value is %s instead of a column of the row" % show(t, 6))
    raise Undecided("column taken as %s" % show(t, 6))


def parsed(t):
    """the numeric types a column is parsed as"""
    return {u.args[0] for u in subterms(t) if u.op == "call" and u.args[0].startswith("parse<")}


def check_entry(ent, what, rowp=None, surface=None, norm_ok=False):
    rows = set()
    for f, n in COLS.items():
        v = field(ent, f)
        for lf in leaves(v):
            row, m = column(lf)
            require(m == n, "%s: %s is taken from column %d" % (what, f, m))
            rows.add(row)
    if surface is not None:
        kinds = leaves(surface)
        row, m = column(kinds[0], norm_ok)
        for lf in kinds[1:]:
            decided(unresolved(lf) is None, "%s: the surface is %s" % (what, show(surface, 5)))
            raise Violated("%s: the surface is not treated alike in all rows: %s" % (what, show(surface, 6)))
        require(m == 0, "%s: the surface is taken from column %d" % (what, m))
        rows.add(row)
    require(len({norm(r) for r in rows}) == 1, "%s: columns of one entry come from different rows %s" % (what, [show(r, 4) for r in rows]))
    return rows.pop()


def split_rows(c, t):
    """t for rows of three columns, and for rows of more"""
    ats = [a for a in sorted({u.args[0] for u in subterms(t) if u.op == "cond"}, key=lambda a: show(a, 5)) if any(x.op == "len" for x in subterms(a))]
    lns = {x for a in ats for x in subterms(a) if x.op == "len"}
    decided(len(lns) == 1, "simplified rows are told apart by %s" % [show(g, 5) for g in ats])
    ln = lns.pop()

    def view(n):
        u = t
        for a in ats:
            v = as_bool(subst(a, {ln: INT(n)}))
            decided(v in (TRUE, FALSE), "simplified rows are told apart by %s" % show(a, 5))
            u = assume_all(u, as_bool(a) if v is TRUE else NOT(as_bool(a)))
        decided(not any(x.op == "cond" and x.args[0] in ats for x in subterms(u)), "simplified rows are told apart by %s" % [show(g, 5) for g in ats])
        return u
    simple, full = view(3), view(21)
    require(simple is not full, "rows of 3 columns are not read as simplified rows")
    for n in (4, 5, 12, 13):
        v = view(n)
        require(v is not simple, "rows of %d columns are read as simplified rows" % n)
        decided(v is full, "rows of %d columns are read differently: %s" % (n, show(v, 5)))
    return simple, full


def row_details(t, what, norm_ok=False):
    """details are the columns after the fourth"""
    for u in leaves(t):
        if u.op == "call" and u.args[0] == "slice::join":
            u = u.args[1]
        if u.op == "coll":
            es = elements(u.args[1])
            L = u.args[0]
            decided(len(es) == 1, "%s: details are %s" % (what, show(u, 5)))
            e = es[0]
            while e.op == "call" and e.args[0] in SAFE + (("str::replace",) if norm_ok else ()):
                e = e.args[1]
            if e.op == "call" and e.args[0] == "str::replace":
                raise Violated("%s: details are altered" % what)
            if e.op != "idx" and unresolved(e) is None and any(u.op == "idx" for u in subterms(e)):
                raise Violated("%s: a detail is %s instead of a column" % (what, show(e, 5)))
            decided(e.op == "idx", "%s: a detail is %s" % (what, show(es[0], 5)))
            row, at = e.args
            k = mk("k", L)
            first = sub(at, k)
            decided(first.op == "int", "%s: detail columns are taken at %s" % (what, show(at, 4)))
            first = first.args[0]
            n = loop_len(L)
            decided(n is not None, "%s: detail columns are taken over %s" % (what, show(L, 4)))
            end = add(n, INT(first))
        elif u.op == "slice":
            row, first, end = u.args[0], u.args[1], u.args[2]
            decided(first.op == "int", "%s: details start at %s" % (what, show(first)))
            first = first.args[0]
        else:
            raise Undecided("%s: details are %s" % (what, show(u, 5)))
        require(first == 4, "%s: details start with column %d" % (what, first))
        if end is not length(row):
            d = sub(length(row), end)
            decided(unresolved(d) is None and not (vocab(d) - {"len"} - vocab(length(row))), "%s: details end at %s" % (what, show(end, 5)))
            raise Violated("%s: details end %s columns before the last" % (what, show(d)))
        yield row


def check(c):
    c.w()
    for val in (True, False):
        n = "system lexicon, normalize_details=%s: " % val

        def go(val=val):
            r, f = system(c)
            L, tree = entries_of(unwrap_da_of(f["dict.da"]))
            es = elements(spec(tree, "normalize_details", val))
            decided(bool(es), "no entries")
            for e in es:
                row = check_entry(field(e, "1"), "entry", surface=field(e, "0"), norm_ok=val)
            return "%d kinds of entry" % len(es)
        c.ob(n + "columns of an entry", go)

        def details(val=val):
            r, f = system(c)
            L, body = one_loop(f["dict.words"].items, "details")
            data = [b for b in body if b.kind in ("bytes", "serialize")]
            decided(len(data) == 1, "details record is %s" % body)
            d = spec(data[0].val, "normalize_details", val)
            d = d.args[1] if d.op == "call" and d.args[0] in ("String::as_bytes", "str::as_bytes") else d
            for row in row_details(d, "system details", val):
                pass
            return "columns from the fifth on"
        c.ob(n + "detail columns", details)

    def plain(name, crate):
        def go():
            r = c.analyse("build_dict", "all", crate=crate)
            f = files(c, r, SYS)
            L, tree = entries_of(unwrap_da_of(f["dict.da"]))
            es = elements(tree)
            decided(bool(es), "no entries")
            for e in es:
                check_entry(field(e, "1"), "entry", surface=field(e, "0"), norm_ok=name.startswith("ipadic"))
            _, body = one_loop(f["dict.words"].items, "details")
            data = [b for b in body if b.kind in ("bytes", "serialize")]
            decided(len(data) == 1, "details record is %s" % body)
            d = data[0].val
            d = d.args[1] if d.op == "call" and d.args[0] in ("String::as_bytes", "str::as_bytes") else d
            for row in row_details(d, "system details", name.startswith("ipadic")):
                pass
            return "columns as they are%s" % (", normalized" if name.startswith("ipadic") else "")
        return go
    for name, crate in BUILDERS.items():
        c.ob("system lexicon of %s" % name, plain(name, crate))

    for name, crate in BUILDERS.items():
        def go(crate=crate):
            r = c.analyse("build_user_dict", "all", crate=crate)
            ok = isv(r.ret, RESULT, "Ok")
            d = assume_all(okfield(r.ret), ok)
            L, tree = entries_of(unwrap_da(field(field(d, "dict"), "da")))
            es = elements(tree)
            decided(len(es) == 1, "%d kinds of entry" % len(es))
            simple, full = split_rows(c, es[0])
            row = check_entry(field(full, "1"), "detailed row", surface=field(full, "0"))
            srow, m = column(field(simple, "0"))
            require(m == 0, "simplified row: the surface is taken from column %d" % m)
            ent = field(simple, "1")
            for f, v in (("word_cost", -10000), ("left_id", 0), ("right_id", 0)):
                x = strip_cast(field(ent, f))
                decided(unresolved(x) is None, "%s of a simplified row is %s" % (f, show(x, 5)))
                require(x is INT(v), "%s of a simplified row is %s, the default is %d" % (f, show(x, 5), v))
            its = bytes_of(field(d, "words_data"))
            _, body = one_loop(its, "details")
            _, det = split_rows(c, body[0].val)
            for row in row_details(det, "user details"):
                pass
            return "columns 0 to 3, defaults, details from the fifth column on"
        c.ob("user lexicon of %s" % name, go)

    def unk():
        r = c.analyse("UnkBuilder::build", "all", crate="lindera_dictionary_builder")
        f = files(c, r, ["unk.bin"])["unk.bin"]
        vs = [i for i in f.items if i.kind in ("serialize", "bytes")]
        decided(len(vs) == 1, "unk.bin is %s" % f.items)
        v = vs[0].val
        for e in encoded_in(v):
            v = e
        decided(v.op == "adt", "unk.bin holds %s" % show(v, 4))
        parts = dict(v.args[2])
        costs = [x for x in parts.values() if any(u.op == "adt" and u.args[0].endswith("WordEntry") for u in subterms(x))]
        decided(len(costs) == 1 and costs[0].op == "coll", "unknown word entries are %s" % show(v, 4))
        es = elements(costs[0].args[1])
        decided(len(es) == 1, "unknown word entries are %s" % show(costs[0], 4))
        row = check_entry(es[0], "unknown word")
        # the category a definition belongs to
        refs = [x for x in parts.values() if x is not costs[0]]
        decided(len(refs) == 1, "unk.bin holds %s" % show(v, 4))
        eqs = [u for u in subterms(refs[0]) if u.op == "eq" and any(x.op == "idx" and x.args[1].op == "int" for x in u.args[:2])]
        decided(bool(eqs), "categories of unknown words are found by %s" % show(refs[0], 6))
        for u in eqs:
            x = [y for y in u.args[:2] if y.op == "idx" and y.args[1].op == "int"][0]
            decided(norm(x.args[0]) is norm(row), "category is read from %s" % show(x, 5))
            require(x.args[1].args[0] == 0, "the category of an unknown word is taken from column %d" % x.args[1].args[0])
        return "columns 0 to 3"
    c.ob("unknown word definitions", unk)


def encoded_in(v):
    e = encoded(v)
    if e:
        yield e[1]
