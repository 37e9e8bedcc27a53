"""C05. From the dictionary builders the analysis derives, for an arbitrary source row k, the
id stored in the row's entry, the row the surface is taken from, and the byte streams of the
details and index files; from the readers the offsets and widths with which index and
details are decoded.  The rule: id = k, entry and details use the same row k of the same
sequence, index slot k holds the sum of the lengths of the records before k, and reader and
writer agree on widths, byte order, length prefix, separator and record position."""
from .common import *

DROPS = {"Vec::" + n for n in ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "drain",
                                "pop", "remove", "swap_remove", "split_off", "clear")}

ASSUMES = ["bincode::deserialize_from reads the value written by bincode::serialize_into"]


def entries_of(pairs):
    """(loop, sequence tree) of (surface, entry) rows that were grouped by surface"""
    gs = [u for u in subterms(pairs) if u.op == "call" and u.args[0] == "group"]
    decided(len(gs) == 1, "entries are not grouped in one table")
    g = gs[0].args[1]
    decided(g.op == "coll", "grouped entries are %s" % show(g, 3))
    return g.args[0], g.args[1]


def row_refs(t, L):
    """the sequences that are indexed at the loop's current position"""
    k = mk("k", L)
    out, seen, todo = set(), set(), [t]
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op in ("coll", "psum", "exists", "exitby") and u.args[0] is L:
            continue  # its own position, not the current row's
        if u.op == "idx" and u.args[1] is k:
            out.add(u.args[0])
        todo.extend(children(u))
    return out


def elements(tree):
    """the pushed elements of a sequence tree"""
    out = []
    for lf in leaves(tree):
        decided(lf.op == "seq", "rows are collected by %s" % show(lf, 3))
        for e in lf.args:
            decided(e.op == "it", "rows are collected by %s" % show(e, 3))
            out.append(e.args[0])
    return out


def one_each(tree, what):
    for lf in leaves(tree):
        decided(lf.op == "seq" and all(e.op == "it" for e in lf.args), "%s: %s" % (what, show(lf, 3)))
        require(len(lf.args) == 1, "%s: %d for one of the source" % (what, len(lf.args)))


def base_rows(s):
    while s.op == "call" and s.args[0] in ("sorted", "sorted_by", "sorted_desc"):
        s = s.args[1]
    return s


def check(c):
    st = {}

    def ids(kind, pairs, spc):
        def go():
            L, tree = entries_of(pairs)
            tree = spc(tree)
            es = elements(tree)
            decided(bool(es), "no entries")
            rows = set()
            for e in es:
                key, ent = index_tup(e, 0), index_tup(e, 1)
                wid = field(field(ent, "word_id"), "0")
                decided(unresolved(wid) is None, "word id has no closed form: %s" % show(wid, 4))
                require(strip_cast(wid) is mk("k", L), "the word id of the %s entry of row k is %s" % (kind, show(wid, 6)))
                sysf = field(field(ent, "word_id"), "1")
                rows |= row_refs(e, L)
            rs = {r for r in rows if r is not mk("k", L)}
            decided(len(rs) >= 1, "row of an entry not recognised")
            require(len(rs) == 1, "surface and ids of one entry come from different row sequences: %s" % [show(x, 5) for x in rs])
            st[kind] = (L, rs.pop())
            return "entry of row k has id k"
        return go

    def records(kind, its, spc):
        def go():
            L, body = one_loop(its, "%s details" % kind)
            body = [Item(b.kind, spc(b.val) if b.val is not None else None, b.endian, b.loop, b.body) for b in body]
            EL, rows = st[kind]
            require(L is EL, "details are written for %s, ids counted over %s" % (show(L, 4), show(EL, 4)))
            rs = set()
            for b in body:
                rs |= row_refs(b.val, L)
            decided(bool(rs), "details not taken from a row: %s" % body)
            require(rs == {rows}, "the details of row k come from row sequence %s, its entry from %s" %
                    ([show(x, 5) for x in rs], show(rows, 5)))
            st[kind + " body"] = body
            return "one record per row: %s" % [b.kind for b in body]
        return go

    def system_format(spc):
        def go():
            body = st["system body"]
            fixed = [b for b in body if b.kind in WIDTH]
            data = [b for b in body if b.kind == "bytes"]
            require(len(data) == 1 and len(body) == len(fixed) + 1, "details record is %s" % body)
            require(body[-1] is data[0], "the record's data is followed by %s" % body)
            d = data[0].val
            d = d.args[1] if d.op == "call" and d.args[0] in ("String::as_bytes", "str::as_bytes") else d
            require(len(fixed) == 1, "details record starts with %s" % fixed)
            ln = strip_cast(fixed[0].val)
            same(ln, length(d), "length prefix of a details record")
            st["prefix"] = (fixed[0].kind, fixed[0].endian)
            decided(d.op == "call" and d.args[0] == "slice::join", "details are written as %s" % show(d, 4))
            st["sep"] = d.args[2]
            all_columns(d.args[1], kind_rows("system"))
            st["reclen"] = add(INT(WIDTH[fixed[0].kind]), length(d))
            return "%s%s length, then columns joined by %s" % (fixed[0].kind, fixed[0].endian, show(st["sep"]))
        return go

    def kind_rows(kind):
        L, rows = st[kind]
        return index(rows, mk("k", L))

    def all_columns(cols, row):
        """the joined columns: one for each of the row's columns from the fifth on"""
        src = cols
        if cols.op == "coll" and cols.args[0].args[0].op == "range":
            lo, hi = cols.args[0].args[0].args[:2]
            one_each(cols.args[1], "joined columns")
            e = elements(cols.args[1])[0]
            at = [u.args[1] for u in subterms(e) if u.op == "idx" and u.args[0] is row]
            decided(len(at) == 1, "a joined column is %s" % show(e, 5))
            first = sub(at[0], mk("k", cols.args[0]))
            same(add(first, lo), INT(4), "first column of the details")
            same(add(first, hi), length(row), "end of the columns of the details")
            return
        if cols.op == "coll":
            decided(cols.args[0].args[0].op == "over", "columns are joined from %s" % show(cols, 4))
            one_each(cols.args[1], "joined columns")
            src = cols.args[0].args[0].args[0]
            e = elements(cols.args[1])[0]
            decided(contains(e, mk("k", cols.args[0])), "a joined column is %s" % show(e, 5))
        if src.op == "slice" and src.args[0] is row:
            same(src.args[1], INT(4), "first column of the details")
            same(src.args[2], length(row), "end of the columns of the details")
        else:
            decided(False, "details are the columns %s" % show(src, 5))

    def system_index(its, spc):
        def go():
            L, body = one_loop(its, "system details index")
            EL, rows = st["system"]
            require(L is EL, "the index has an entry for each of %s, ids are counted over %s" % (show(L, 4), show(EL, 4)))
            require(len(body) == 1 and body[0].kind in WIDTH, "index slot is %s" % body)
            st["slot"] = (body[0].kind, body[0].endian)
            v = strip_cast(spc(body[0].val))
            same(v, psum(L, st["reclen"], mk("k", L)), "details offset of row k in the index")
            return "%s%s offset = sum of the preceding records' lengths" % st["slot"]
        return go

    def reader():
        r = c.analyse("lindera_core::dictionary::{impl#0}::word_details")
        wid = mk("par", "word_id")
        rs = reads(r.ret)
        ix = [x for x in rs if x[2] is field(SELF, "words_idx_data")]
        ln = [x for x in rs if x[2] is field(SELF, "words_data")]
        decided(len(ix) == 1 and len(ln) == 1, "reader makes the reads %s" % [show(x[5], 4) for x in rs])
        ix, ln = ix[0], ln[0]
        require((ix[0], ix[1]) == st["slot"], "index slots are written as %s%s and read as %s%s" % (st["slot"] + ix[:2]))
        require(ix[3] is mulc(wid, WIDTH[st["slot"][0]]), "index slot of a word id is read at %s, slots are %d bytes" %
                (show(ix[3]), WIDTH[st["slot"][0]]))
        require((ln[0], ln[1]) == st["prefix"], "record length is written as %s%s and read as %s%s" % (st["prefix"] + ln[:2]))
        require(ln[3] is ix[5], "record length is read at %s instead of the offset from the index" % show(ln[3], 5))
        w = WIDTH[st["prefix"][0]]
        data = slice_(field(SELF, "words_data"), add(ix[5], INT(w)), add(add(ix[5], INT(w)), ln[5]))
        sp = [u for u in subterms(r.ret) if u.op == "call" and u.args[0] in ("slice::split", "str::split")]
        decided(len(sp) == 1, "record is not split in one place")
        buf = sp[0].args[1]
        while buf.op == "f" and buf.args[1] in ("Ok",):
            buf = buf.args[0].args[-1]
        same(buf, data, "record bytes read")
        p = sp[0].args[2]
        if p.op == "lam":
            byte = st["sep"].args[0].encode()
            require(len(byte) == 1 and p.args[0] is as_bool(eq(mk("sym", "x"), INT(byte[0]))),
                    "columns are joined by %s and split where %s" % (show(st["sep"]), show(p)))
        else:
            pv = p.args[0] if p.op in ("str", "char") else None
            decided(pv is not None or p.op == "int", "split at %s" % show(p))
            require(pv == st["sep"].args[0] or (p.op == "int" and chr(p.args[0]) == st["sep"].args[0]),
                    "columns are joined by %s and split at %s" % (show(st["sep"]), show(p)))
        some = [lf for lf in leaves(r.ret) if lf.op == "adt" and lf.args[1] == "Some"]
        require(len(some) == 1, "word_details returns %s" % [show(s, 4) for s in some])
        v = some[0].args[2][0][1]
        if v is sp[0]:
            return "index slot -> record -> columns, as split"
        if v.op in ("mu", "fin"):
            m = v if v.op == "mu" else v.args[0]
            for l in r.loops:
                for u in subterms(l.steps.get(m, INT(0))):
                    require(u.op not in ("mut", "call", "vec_pop") or u.op != "vec_pop" and u.args[0] not in DROPS | {"vec_pop"},
                            "details are removed on reading: %s" % show(u, 3))
        decided(v.op == "coll" and v.args[0].args[0] is mk("over", sp[0]), "details are %s" % show(v, 4))
        L = v.args[0]
        one_each(v.args[1], "details read")
        es = elements(v.args[1])
        require(len(es) == 1, "details of a word are %s" % show(v.args[1], 5))
        e = es[0]
        src = index(sp[0], mk("k", L))
        decided(contains(e, src), "a detail is %s" % show(e, 5))
        bad = [u.args[0] for u in subterms(e) if u.op == "call" and not u.args[0].startswith(("str::from_utf8", "String::from_utf8", "slice::split", "decode_"))]
        require(not bad or not set(bad) & {"str::trim", "str::to_lowercase", "str::replace"}, "details are altered on reading: %s" % bad)
        return "index slot -> record -> columns, all of them"

    def in_bounds():
        r = c.analyse("lindera_core::dictionary::{impl#0}::word_details")
        wid = mk("par", "word_id")
        n = WIDTH[st["slot"][0]]
        out = pos(sub(add(mulc(wid, n), INT(1)), length(field(SELF, "words_idx_data"))))
        okay = [pos(sub(add(mulc(wid, n), INT(j)), length(field(SELF, "words_idx_data")))) for j in range(1, n + 1)]
        okay += [NOT(o) for o in okay]
        none = [lf for lf in leaves(restrict(r.ret, out))]
        require(all(l.op == "adt" and l.args[1] == "None" for l in none), "an id beyond the index does not give None")
        for u in subterms(r.ret):
            if u.op in ("pos", "zero") and contains(u, wid) and as_bool(u) not in okay and NOT(as_bool(u)) not in okay:
                dec = [x for x in subterms(u) if x.op == "call"]
                if not dec and contains(u, field(SELF, "words_idx_data")):
                    raise Violated("an id inside the index is looked up only if %s" % show(u))
        return "None only beyond the index"

    ident = lambda t: t
    for val in (True, False):
        n = "normalize_details=%s: " % val
        spc = lambda t, v=val: spec(t, "normalize_details", v)
        r, f = system(c)
        if c.ob(n + "system ids", ids("system", unwrap_da_of(f["dict.da"]), spc)):
            if c.ob(n + "system records", records("system", f["dict.words"].items, spc)):
                if c.ob(n + "system record format", system_format(spc)):
                    c.ob(n + "system index", system_index(f["dict.wordsidx"].items, spc))
    if "slot" in st and "prefix" in st:
        c.ob("system reader", reader)
        c.ob("system reader bounds", in_bounds)

    def user_index():
        r, d = user(c)
        L, body = one_loop(bytes_of(d["idx"]), "user details index")
        EL, rows = st["user"]
        require(L is EL, "index is written for %s, ids are counted over %s" % (show(L, 4), show(EL, 4)))
        require(len(body) == 1 and body[0].kind in WIDTH, "index slot is %s" % body)
        st["uslot"] = (body[0].kind, body[0].endian)
        v = strip_cast(body[0].val)
        # the offset is the length of the details buffer before the row's record is appended
        if v.op == "len" and v.args[0].op == "mu":
            l = [x for x in r.loops if x.L is L]
            decided(bool(l), "loop of the index not found")
            mu = v.args[0]
            l = [x for x in l if mu in x.steps]
            decided(bool(l), "offset is the length of %s at the start of row k" % show(mu))
            step, init = l[0].steps[mu], l[0].inits[mu]
            _, its = chain(init)
            require(not its, "details buffer is not empty at the first row")
            ub = st["user body"]
            got = [stream_items(chain(s)[1]) for s in leaves(step) if s is not mu]
            require(got and all(len(g) == 1 and g[0].kind == ub[0].kind and g[0].val is ub[0].val for g in got),
                    "offset counts %s, records are %s" % (got, ub))
            return "offset = length of the details written so far"
        _, k = psum_parts(v)
        raise Undecided("user details offset %s" % show(v, 5))

    def user_reader():
        r = c.analyse("lindera_core::dictionary::{impl#1}::word_details")
        wid = mk("par", "word_id")
        rs = [x for x in reads(r.ret) if x[2] is field(SELF, "words_idx_data")]
        decided(len(rs) == 1, "reader makes %d index reads" % len(rs))
        x = rs[0]
        require(x[:2] == st["uslot"], "index slots are written as %s%s and read as %s%s" % (st["uslot"] + x[:2]))
        require(x[3] is mulc(wid, WIDTH[x[0]]), "index slot read at %s" % show(x[3]))
        ds = [u for u in subterms(r.ret) if u.op == "call" and u.args[0].startswith("bincode::deserialize")]
        decided(len(ds) == 1 and st["user body"][0].kind == "serialize", "details decoded by %s, written as %s" % (ds, st["user body"]))
        buf = ds[0].args[1]
        require(buf.op == "slice" and buf.args[0] is field(SELF, "words_data") and buf.args[1] is x[5],
                "details decoded from %s instead of the offset in the index" % show(buf, 6))
        some = [lf for lf in leaves(r.ret) if lf.op == "adt" and lf.args[1] == "Some"]
        require(len(some) == 1 and some[0].args[2][0][1] is field(ds[0], "0", "Ok"), "word_details returns %s" % [show(s, 5) for s in some])
        lost = maptree(r.ret, lambda l: TRUE if l.op == "adt" and l.args[1] == "None" else FALSE)
        for a in atoms(lost):
            if a.op in ("pos", "zero") and not contains(a, length(field(SELF, "words_data"))) and any(u.op == "call" and u.args[0].startswith("decode_") for u in subterms(a)):
                require(assume(lost, a, True) is assume(lost, a, False), "a word has no details depending on where its record is: %s" % show(a, 6))
        ty = ds[0].args[0]
        require("Vec<" in ty and "String" in ty, "details decoded as %s" % ty)
        return "bincode value at the offset of the index"

    r, d = user(c)
    if c.ob("user ids", ids("user", unwrap_da(d["dict.da"]), ident)):
        if c.ob("user records", records("user", bytes_of(d["words"]), ident)):
            if c.ob("user index", user_index):
                c.ob("user reader", user_reader)


def index_tup(t, i):
    return field(t, str(i))


def psum_parts(v):
    if v.op == "psum":
        return v.args[1], v.args[2]
    return None, None


def unwrap_da_of(f):
    for i in f.items:
        if i.kind == "bytes":
            return unwrap_da(i.val)
    raise Undecided("dict.da is %s" % f.items)
