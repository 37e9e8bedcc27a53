"""C04. The byte sequence WordEntry::serialize appends to its writer and the reads
WordEntry::deserialize makes are derived by value numbering of the compiled MIR and
compared field by field (offset, width, signedness, byte order); the entry tables the two
dictionary builders write and the strides with which the prefix dictionary steps through
them are derived the same way and compared with that layout."""
from .common import *

ASSUMES = ["byteorder's write_X/read_X and to/from_{le,be}_bytes use the width and order in their names"]


def plain(c, name):
    ks = [k for k in c.w().find(name, crate="lindera_core") if "promoted" not in k and "::_" not in k]
    if len(ks) != 1:
        raise Missing("%s (found %s)" % (name, ks))
    return ks[0]


def path_of(t, base):
    p = []
    while t.op == "f" and t is not base:
        p.append(t.args[2])
        t = t.args[0]
    return ".".join(p[::-1]) if t is base else None


def layout_of(its, base, what):
    """[(field path, type, endian, offset)] of a record of fixed-width writes"""
    out, off = [], 0
    for i in its:
        if i.kind not in WIDTH:
            raise Undecided("%s: record element %s has no fixed width" % (what, i))
        p = path_of(strip_cast(i.val), base)
        if p is None and i.val.op != "f":
            fs = {path_of(u, base) for u in subterms(i.val) if u.op == "f"}
            raise (Violated if contains(i.val, base) and None not in fs and unresolved(i.val) is None else Undecided)(
                "%s: %s is not a field of the entry" % (what, show(i.val, 6)))
        out.append((p, i.kind, i.endian, off))
        off += WIDTH[i.kind]
    return out, off


def leaf_fields(t, pre=""):
    if t.op == "adt":
        for n, v in t.args[2]:
            yield from leaf_fields(v, pre + "." + n if pre else n)
    else:
        yield pre, t


def check(c):
    st = {}

    def writer():
        k = plain(c, "WordEntry::serialize")
        r = analyse(k, "io")
        c.functions.update(r.visited | {k})
        w = restrict(r.final("wtr"), isv(r.ret, RESULT, "Ok"))
        b, its = chain(w)
        require(b is mk("par", "wtr"), "serialize does not only append to its writer")
        st["w"], st["len"] = layout_of(stream_items(its), SELF, "WordEntry::serialize")
        fs = [f for f, *_ in st["w"]]
        require(len(set(fs)) == len(fs), "a field is written twice: %s" % fs)
        return "%s, %d bytes" % (st["w"], st["len"])

    def reader():
        k = plain(c, "WordEntry::deserialize")
        r = analyse(k, "io")
        c.functions.update(r.visited | {k})
        st["r"] = list(leaf_fields(r.ret))
        decided(len(st["r"]) > 1, "deserialize does not build a WordEntry: %s" % show(r.ret, 4))
        st["rd"] = {}
        for p, v in st["r"]:
            rs = reads(v)
            if not rs:
                continue
            if strip_cast(v) is not rs[0][5] or len(rs) != 1:
                one = len(rs) == 1 and unresolved(v) is None
                raise (Violated if one else Undecided)("field %s is computed as %s" % (p, show(v, 6)))
            ty, en, buf, a, b, u = rs[0]
            st["rd"][p] = (ty, en, a, b, buf)
        return str({p: (v[0], v[1], show(v[2])) for p, v in st["rd"].items()})

    def agree(f, ty, en, off):
        def go():
            require(f in st["rd"], "field %s is written (%s%s at %d) but not read back into the same field (read: %s)" %
                    (f, ty, en, off, sorted(st["rd"])))
            rty, ren, a, b, buf = st["rd"][f]
            require((rty, ren) == (ty, en) and a is INT(off),
                    "field %s is written as %s %s at offset %d and read as %s %s at offset %s" %
                    (f, ty, en, off, rty, ren, show(a)))
            return "%s %s at %d" % (ty, en, off)
        return go

    def flag():
        unread = [(p, v) for p, v in st["r"] if p not in st["rd"]]
        for p, v in unread:
            require(v.op == "par", "field %s of a read entry is %s" % (p, show(v, 4)))
        names = {f for f, *_ in st["w"]}
        extra = [p for p in st["rd"] if p not in names]
        require(not extra, "fields %s are read but not written" % extra)
        return "not stored, given by the caller: %s" % [p for p, v in unread]

    def wide():
        # the writers' conversions: the stored value is the field itself, not a narrowed one
        k = plain(c, "WordEntry::serialize")
        r = analyse(k, "io")
        w = restrict(r.final("wtr"), isv(r.ret, RESULT, "Ok"))
        for i in stream_items(chain(w)[1]):
            for u in subterms(i.val):
                require(not narrowing(u), "field is narrowed when written: %s" % show(i.val, 5))
        for p, v in st["r"]:
            for u in subterms(v):
                require(not narrowing(u), "field %s is narrowed when read: %s" % (p, show(v, 5)))

    ok = c.ob("writer layout", writer) and c.ob("reader layout", reader)
    if ok:
        for f, ty, en, off in st["w"]:
            c.ob("field %s" % f, agree(f, ty, en, off))
        c.ob("fields not stored", flag)
        c.ob("no narrowing", wide)
    if "w" in st:
        c.floor("fields of a stored entry", len(st["w"]), 4)

    def advertised():
        ks = [k for k in c.w().fns if k.endswith("::SERIALIZED_LEN") and "word_entry" in k]
        decided(len(ks) == 1, "no single constant for the entry length")
        v = analyse(ks[0]).ret
        decided(v.op == "int", "entry length is %s" % show(v, 4))
        require(v.args[0] == st["len"], "SERIALIZED_LEN is %s, %d bytes are written" % (v.args[0], st["len"]))
        return str(v.args[0])

    def table(which):
        def go():
            r, d = (system if which == "system" else user)(c)
            its = d["dict.vals"].items if which == "system" else bytes_of(d["dict.vals"])
            L, body = one_loop(its, "%s entry table" % which)
            if len(body) == 1 and body[0].kind == "each":
                L, body = body[0].loop, body[0].body
            e = index(L.args[0].args[0], mk("k", L)) if L.args[0].op == "over" else None
            decided(e is not None, "entry table loops over %s" % show(L, 4))
            lay, n = layout_of(body, e, "%s entry table" % which)
            require(lay == st["w"], "the %s dictionary builder writes records %s, WordEntry::serialize writes %s" %
                    (which, lay, st["w"]))
            return str(lay)
        return go

    def stride(name):
        def go():
            r = c.analyse(name, crate="lindera_core")
            ent = [u for u in subterms(r.ret) if u.op == "adt" and u.args[0].endswith("WordEntry")]
            decided(bool(ent), "no entries built in %s" % name)
            for e in ent:
                fl = dict(leaf_fields(e))
                base = None
                for p, (ty, en, a, b, buf) in st["rd"].items():
                    rs = reads(fl[p])
                    decided(len(rs) == 1 and rs[0][5] is strip_cast(fl[p]), "field %s read as %s" % (p, show(fl[p], 6)))
                    o = sub(rs[0][3], a)
                    require((rs[0][0], rs[0][1]) == (ty, en), "%s reads %s as %s %s" % (name, p, rs[0][0], rs[0][1]))
                    require(base is None or base is o, "%s reads the fields of one entry from different places: %s and %s" %
                            (name, show(base) if base else "", show(o)))
                    base = o
                c0, ts = lin_parts(base)
                decided(bool(ts), "entries of %s are not read from a table" % name)
                require(c0 == 0 and all(k == st["len"] for t, k in ts),
                        "%s reads entries at %s, entries are %d bytes long" % (name, show(base), st["len"]))
            return "entry at %s" % show(base, 4)
        return go

    if ok:
        c.ob("system entry table", table("system"))
        c.ob("user entry table", table("user"))
        c.ob("stride PrefixDict::prefix", stride("PrefixDict::prefix"))
        c.ob("stride PrefixDict::find_surface", stride("PrefixDict::find_surface"))
        c.ob("SERIALIZED_LEN", advertised)
