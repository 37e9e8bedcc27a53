"""C07. The builder's matrix file is derived as an array (its length, its first cells, the cell
a source row writes and the value it writes there); both loaders are composed with the cost
lookup to the byte the lookup reads for a pair of ids. The rule: same cell, width, byte order,
dimension and id roles; the dimensions come first; values are not altered; a row outside the
matrix ends the build."""
from .common import *


def updates(t):
    """array updates over a base, outermost first"""
    out = []
    while t.op == "updi":
        out.append((t.args[1], t.args[2]))
        t = t.args[0]
    return t, out


def source_cell(t):
    """(line, column) a source number comes from: parse<..>(split(line)[i])"""
    t = strip_cast(t)
    while t.op == "f" and t.args[1] == "Ok":
        t = t.args[0]
    if t.op == "call" and t.args[0].startswith("parse<"):
        x = t.args[1]
        while x.op == "call" and x.args[0].startswith("str::trim"):
            x = x.args[1]
        if x.op == "idx" and x.args[0].op == "call" and x.args[0].args[0].startswith("str::split"):
            return x.args[0].args[1], x.args[1], t
    return None


def check(c):
    st = {}

    def layout():
        r = c.analyse("CostMatrixBuilder::build", "all", crate="lindera_dictionary_builder")
        st["r"] = r
        f = files(c, r, ["matrix.mtx"])["matrix.mtx"]
        its = f.items
        L, body = one_loop(its, "matrix file")
        require(len(body) == 1 and body[0].kind in WIDTH, "matrix cells are written as %s" % body)
        decided(L.args[0].op == "over", "matrix written by %s" % show(L, 4))
        arr = L.args[0].args[0]
        require(body[0].val is index(arr, mk("k", L)), "the value written for cell k is %s" % show(body[0].val, 6))
        st["cell"] = (body[0].kind, body[0].endian)
        decided(arr.op == "fin", "matrix array is %s" % show(arr, 3))
        mu = [m for m in r.loops if any(mm is arr.args[0] for mm in m.steps)]
        decided(len(mu) >= 1, "loop filling the matrix not found")
        l = mu[-1]
        m = arr.args[0]
        base, ups = updates(l.inits[m])
        decided(base.op == "rep", "matrix starts as %s" % show(base, 4))
        st["n"] = base.args[1]
        st["head"] = {i.args[0]: v for i, v in ups[::-1] if i.op == "int"}
        decided(len(st["head"]) == len(ups), "matrix header written at %s" % [show(i) for i, v in ups])
        b2, row = updates(assume_cont(l, l.steps[m]))
        decided(b2 is m and len(row) == 1, "a source row changes the matrix by %s" % show(l.steps[m], 5))
        st["idx"], st["val"] = row[0]
        st["loop"] = l
        return "array of %s cells of %s%s" % ((show(st["n"], 4),) + st["cell"])

    def assume_cont(l, t):
        return assume_all(t, l.cont) if l.cont.op == "cond" else t

    def header():
        h = st["head"]
        require(sorted(h) == list(range(len(h))) and len(h) == 2, "header cells %s" % sorted(h))
        cells = {}
        for i, v in h.items():
            sc = source_cell(v)
            decided(sc is not None, "header cell %d is %s" % (i, show(v, 8)))
            require(sc[1] is INT(i), "header cell %d holds column %s of the first line" % (i, show(sc[1])))
            line = sc[0]
            cells[i] = strip_cast(v)
        st["dims"] = cells
        n = mk2(st["n"])
        want = add(mul(cells[0], cells[1]), INT(len(h)))
        same(n, want, "number of matrix cells")
        return "cells 0 and 1: the two dimensions, then one cell per pair"

    def mk2(t):
        # conversions are compared by C25
        return subst_casts(t)

    def subst_casts(t):
        m = {}
        for u in subterms(t):
            if u.op == "cast" or (u.op == "f" and u.args[0].op == "call" and u.args[0].args[0].startswith("try_")):
                m[u] = strip_cast(u)
        for _ in range(4):
            t2 = subst(t, m)
            m2 = {u: strip_cast(u) for u in subterms(t2) if u.op == "cast"}
            t, m = t2, m2
            if not m:
                break
        return t

    def row():
        idx = subst_casts(st["idx"])
        cols = {}
        for u in subterms(idx):
            sc = source_cell(u)
            if sc and u.op == "f":
                cols[u] = sc
        rowc = {}
        for u, (line, i, t) in cols.items():
            if u not in st["dims"].values():
                decided(i.op == "int", "column %s" % show(i))
                rowc[i.args[0]] = u
        v = source_cell(st["val"])
        if v is None:
            whole = {u for u in subterms(st["val"]) if u.op == "f" and source_cell(u)}
            changed = any(u.op == "call" and u.args[0] in ("Ord::clamp", "Ord::min", "Ord::max", "min", "max") for u in subterms(st["val"]))
            raise (Violated if len(whole) == 1 and (changed or unresolved(st["val"]) is None) else Undecided)(
                "a matrix row's cost is stored as %s" % show(st["val"], 8))
        require(v[1] is INT(2), "the cost is taken from column %s of a row" % show(v[1]))
        require(set(rowc) == {0, 1}, "the cell is chosen by columns %s" % sorted(rowc))
        a, b = rowc[0], rowc[1]
        # lookup of (forward, backward) = (column 0, column 1): composed with each loader
        st["a"], st["b"], st["row"] = a, b, idx
        return "cell %s" % show(idx, 8)

    def lookup(loader):
        def go():
            lr = c.analyse("ConnectionCostMatrix::" + loader, crate="lindera_core")
            cr = c.analyse("ConnectionCostMatrix::cost", crate="lindera_core")
            rs = reads(cr.ret)
            decided(len(rs) == 1, "cost makes %d reads" % len(rs))
            data, size = field(lr.ret, "costs_data"), field(lr.ret, "backward_size")
            while data.op == "adt":
                data = data.args[2][0][1]
            ps = params(c.w().fns[cr.key])
            decided(len(ps) == 3, "cost has parameters %s" % ps)
            v = subst(cr.ret, {field(SELF, "costs_data"): data, field(SELF, "backward_size"): size})
            for u in subterms(v):
                if u.op == "cast" and WIDTH.get(u.args[0], 8) < 4:
                    x = strip_cast(u)
                    at = [y for y in reads(x) if y[5] is x]
                    require(x.op == "int" or at and WIDTH[at[0][0]] <= WIDTH[u.args[0]] or at == [] and x.op not in ("lin", "prod", "cond", "par"),
                            "%s is narrowed to %s" % (show(x, 5), u.args[0]))
            rs = reads(v)
            arg = mk("par", "conn_data")
            p0, p1 = mk("par", ps[1]), mk("par", ps[2])
            main = [x for x in rs if contains(x[3], p0) or contains(x[3], p1)]
            decided(len(main) == 1 and strip_cast(v) is main[0][5], "cost is computed as %s" % show(v, 6))
            ty, en, buf, off, to, u = main[0]
            decided(buf.op == "par", "cost is read from %s" % show(buf, 4))
            w = WIDTH[st["cell"][0]]
            require((ty, en) == st["cell"], "cells are written as %s%s and read as %s%s" % (st["cell"] + (ty, en)))
            # dimension reads of the loaded data -> the dimension stored in that header cell
            m = {p0: st["a"], p1: st["b"]}
            for x in rs:
                if x is main[0]:
                    continue
                # a dimension is not negative, so its sign is not part of the layout
                require((WIDTH[x[0]], x[1]) == (w, st["cell"][1]), "a dimension is written as %s%s and read as %s%s" % (st["cell"] + x[:2]))
                decided(x[3].op == "int" and x[3].args[0] % w == 0, "dimension read at byte %s" % show(x[3]))
                h = x[3].args[0] // w
                require(h in st["dims"], "a dimension is read from byte %s, where no dimension is stored" % show(x[3]))
                m[x[5]] = st["dims"][h]
            got = subst_casts(subst(subst_casts(off), m))
            want = mulc(st["row"], w)
            same(got, want, "byte read for the ids of a source row")
            return "byte %s of the file" % show(got, 6)
        return go

    def params(f):
        n = f.d.get("arg_count") or f.d.get("args") or 0
        out = []
        for i in range(1, (n if isinstance(n, int) else len(n)) + 1):
            out.append(f.locals[i].get("name"))
        return out

    def bounds():
        ok = isv(st["r"].ret, RESULT, "Ok")
        l = st["loop"]
        E = [u for u in subterms(ok) if u.op == "exists" and u.args[0] is l.L]
        bad = FALSE
        for e in E:
            if assume(ok, e, True) is FALSE:
                bad = OR(bad, e.args[1])
        out = []
        for nm, v, d in (("first", st["a"], st["dims"][0]), ("second", st["b"], st["dims"][1])):
            for what, atom in (("not below its dimension", pos(sub(d, v))), ("not negative", pos(add(v, INT(1))))):
                a = as_bool(atom)
                t = assume(subst_casts_c(bad), a if a.op != "cond" else a.args[0], False)
                if t is TRUE:
                    out.append("%s id %s" % (nm, what))
                    continue
                if what == "not negative" and any(u.op == "call" and u.args[0].startswith("try_") and contains(u, v) for u in subterms(st["idx"])):
                    continue
                rows = {u.args[0] for u in subterms(v) if u.op == "idx" and u.args[1].op == "int"}
                decided(not any(u.op == "exists" and u.args[0] is not l.L and any(contains(u.args[1], x) for x in rows) for u in subterms(bad)),
                        "the fields of a row are checked in a loop")
                if any(contains(u, v) for u in subterms(bad)) and not contains(t, v):
                    raise Violated("a row whose %s id is out of range (%s fails) does not end the build" % (nm, what))
                if not contains(bad, v):
                    rel = [u for u in subterms(ok) if u.op in ("pos", "zero") and contains(u, v)]
                    decided(not rel, "range of an id tested by %s" % [show(x, 5) for x in rel])
                    raise Violated("the %s id of a row is not checked: %s" % (nm, what))
                raise Undecided("range check of the %s id: %s" % (nm, show(t, 6)))
        return ", ".join(out)

    def subst_casts_c(t):
        return subst_casts(t)

    if c.ob("matrix file", layout) and c.ob("header", header) and c.ob("source row", row):
        c.ob("lookup after load", lookup("load"))
        c.ob("lookup after load_static", lookup("load_static"))
        c.ob("rows outside the matrix", bounds)

    c.counts["fields in the file"] = len(st.get("head", ()))
