"""C40. For each of the five dictionaries the sequence of rows behind the surface index is
derived from the value of build_dict and build_user_dict with that dictionary's own settings: the
loop over the source files, the reader and its settings, the loop over the records of a file,
and the loop that turns rows into entries. The rule: every loop runs over the whole sequence
before it, hands on exactly one element for each, and is left early only into an error; only a
dictionary configured to skip them leaves out a row, and only if one of its three numbers does
not parse; the reader is told that there is no header and given no setting that drops or changes
rows. The lines of unk.def and of matrix.def are followed in the same way."""
from .common import *
from .c05 import unwrap_da_of, base_rows

ASSUMES = ["csv::Reader::records yields every row of its input under the settings given",
           "glob::glob yields every file matching the pattern"]

BUILDERS = [d.replace("-", "_") for d in DICTS]
DROPS = {"Vec::dedup", "Vec::dedup_by", "Vec::dedup_by_key", "Vec::retain", "Vec::retain_mut", "Vec::truncate", "Vec::drain",
         "Vec::pop", "Vec::remove", "Vec::swap_remove", "Vec::split_off", "Read::take"}
HARMLESS = {"ReaderBuilder::new", "ReaderBuilder::has_headers", "ReaderBuilder::flexible", "ReaderBuilder::from_reader",
            "ReaderBuilder::from_path", "ReaderBuilder::buffer_capacity", "Reader::records", "Reader::into_records",
            "BufReader::new", "BufReader::with_capacity", "File::open", "fs::read", "Path::join", "Path::file_name", "Path::to_str",
            "Path::to_string_lossy", "glob::glob", "Pattern::escape", "io_read:read_to_end", "io_read:read_to_string",
            "DecodeReaderBytesBuilder::new", "DecodeReaderBytesBuilder::encoding", "DecodeReaderBytesBuilder::build",
            "Encoding::for_label_no_replacement", "Encoding::for_label", "Encoding::decode", "str::lines", "len", "cast"}
CHANGES = {"ReaderBuilder::" + n for n in ("comment", "trim", "quote", "quoting", "double_quote", "escape", "terminator", "ascii")}


def whole(L, what):
    """the sequence a loop visits completely"""
    src = L.args[0]
    if src.op == "over":
        return src.args[0], 0
    decided(src.op == "range", "%s: loop over %s" % (what, show(L, 4)))
    lo, hi = src.args[:2]
    seqs = {u.args[0] for u in subterms(hi) if u.op == "len"}
    decided(len(seqs) == 1, "%s: loop over %s" % (what, show(L, 4)))
    s = seqs.pop()
    same(lo, INT(0), "%s: where the loop starts" % what)
    same(hi, length(s), "%s: where the loop ends" % what)
    return s, 0


def skipped(tree):
    """conditions (as lists of (atom, value)) under which a tree of sequences is empty"""
    out = []

    def go(t, path):
        if t.op == "cond":
            go(t.args[1], path + [(t.args[0], True)])
            go(t.args[2], path + [(t.args[0], False)])
        elif t.op == "seq":
            decided(all(e.op in ("it", "spl") for e in t.args), "collected as %s" % show(t, 3))
            if not t.args:
                out.append(path)
            elif len(t.args) > 1:
                raise Violated("one row is taken %d times" % len(t.args))
        else:
            raise Undecided("collected as %s" % show(t, 4))
    go(tree, [])
    return out


def one_for_one(tree, what, allowed=lambda path: False):
    for p in skipped(tree):
        if not allowed(p):
            unknown = [a for a, v in p if unresolved(a) is not None]
            decided(not unknown, "%s: left out if %s" % (what, show(unknown[0], 4) if unknown else ""))
            raise Violated("%s: left out if %s" % (what, " and ".join(("" if v else "not ") + show(a, 5) for a, v in p) or "anything"))
    return [e.args[0] for lf in leaves(tree) for e in lf.args]


def unparsed(path):
    """one of the row's numbers does not parse"""
    for a, v in path:
        if a.op == "is" and a.args[1] == RESULT and (a.args[2] == "Err") == v:
            x = a.args[0]
            if x.op == "call" and x.args[0].startswith("parse<"):
                return True
    return False


def origin(s):
    """the collection behind sorting; anything that drops elements is a violation"""
    while True:
        s = base_rows(s)
        if s.op == "mut" and s.args[0] in DROPS:
            raise Violated("rows are removed with %s" % s.args[0])
        if s.op == "cond" and len(set(map(base_rows, leaves(s)))) == 1:
            s = base_rows(next(iter(leaves(s))))
            continue
        return s


def reader(src, what, flexible=True):
    """checks the settings of the csv readers the records come from"""
    n = 0
    for lf in set(leaves(src)):
        decided(lf.op == "call" and lf.args[0] in ("Reader::records", "Reader::into_records"), "%s: rows are %s" % (what, show(lf, 4)))
        v = vocab(lf) | {u.args[0] for u in subterms(lf) if u.op == "mut"}
        bad = v & CHANGES
        require(not bad, "%s: the reader is set up with %s, which leaves out or changes rows" % (what, sorted(bad)))
        bad = v & DROPS
        require(not bad, "%s: the source is cut short with %s" % (what, sorted(bad)))
        for u in subterms(lf):
            if u.op == "call" and u.args[0] == "ReaderBuilder::delimiter":
                require(u.args[2] is INT(44), "%s: columns are separated at %s" % (what, show(u.args[2])))
        heads = [u for u in subterms(lf) if u.op == "call" and u.args[0] == "ReaderBuilder::has_headers"]
        news = [u for u in subterms(lf) if u.op == "call" and u.args[0] in ("ReaderBuilder::new", "Reader::from_reader", "Reader::from_path")]
        decided(len(news) == 1, "%s: %d readers" % (what, len(news)))
        require(heads and heads[-1].args[2] is FALSE and all(h.args[2] is FALSE for h in heads),
                "%s: the first row is taken as a header and left out" % what)
        flex = [u for u in subterms(lf) if u.op == "call" and u.args[0] == "ReaderBuilder::flexible"]
        if flex and not flexible:
            require(flex[-1].args[2] is not TRUE, "%s: rows of another number of columns are taken for entries" % what)
        odd = v - HARMLESS - {"ReaderBuilder::delimiter"}
        odd = {x for x in odd if not x.startswith(("fmt", "format", "String::", "str::to_", "PathBuf::", "Path::"))}
        decided(not odd, "%s: rows are read through %s" % (what, sorted(odd)))
        n += 1
    return n


def pushes(t, mu):
    """how many elements one round adds to the list mu, on its different paths"""
    if t is mu:
        return {0}
    if t.op == "cond":
        return pushes(t.args[1], mu) | pushes(t.args[2], mu)
    if t.op == "app" and t.args[1].op == "item" and t.args[1].args[0] == "push":
        return {n + 1 for n in pushes(t.args[0], mu)}
    raise Undecided("rows become %s" % show(t, 4))


def records(t, what, r=None):
    """t: a collection of records read from one source; returns the reader's terms"""
    if t.op == "fin" and r is not None:
        for l in r.loops:
            if t.args[0] in l.steps:
                for n in pushes(assume_all(l.steps[t.args[0]], l.cont), t.args[0]):
                    require(n == 1, "%s: a row is taken %s times" % (what, n))
    decided(t.op == "coll", "%s: rows are %s" % (what, show(t, 4)))
    L, tree = t.args
    src, _ = whole(L, what)
    for e in one_for_one(tree, what):
        ks = [u for lf in leaves(e) for u in subterms(lf) if u.op == "idx" and u.args[1] is mk("k", L)]
        decided(bool(ks), "%s: a row is %s" % (what, show(e, 4)))
        bad = vocab(e) & {"StringRecord::trim", "StringRecord::truncate", "StringRecord::clear", "StringRecord::push_field"}
        bad |= {u.args[0] for u in subterms(e) if u.op == "mut" and u.args[0].startswith("StringRecord::")}
        require(not bad, "%s: a row is changed with %s" % (what, sorted(bad)))
    return src


def left_early(ok, loops):
    """early ends of the row loops that do not end the build with an error"""
    n = 0
    for a in set(atoms(ok)):
        if a.op == "exists" and a.args[0] in loops:
            n += 1
            t = assume(ok, a, True)
            require(t is FALSE or assume(ok, a, False) is FALSE,
                    "the rows after one for which %s are left out" % show(a.args[1], 6))
    return n


def group_of(pairs):
    gs = {u for u in subterms(pairs) if u.op == "call" and u.args[0] == "group"}
    if not gs:
        for u in subterms(pairs):
            b, its = chain(u) if u.op == "app" else (None, ())
            if b is not None and b.op == "call" and b.args[0] in ("HashMap::new", "BTreeMap::new") and its:
                x = its[0].args[1]
                if its[0].args[0] == "each" and x.op == "coll" and \
                        any(y.op == "item" and y.args[0] in ("insert", "put") for y in subterms(x.args[1])):
                    raise Violated("a row replaces the earlier rows of the same surface")
    decided(len(gs) == 1, "entries are not grouped in one table")
    g = gs.pop().args[1]
    decided(g.op == "coll", "grouped entries are %s" % show(g, 3))
    return g


def check(c):
    def system_(b):
        def go():
            r = c.analyse("build_dict", "io", crate="lindera_%s_builder" % b)
            f = files(c, r, SYS)
            g = group_of(unwrap_da_of(f["dict.da"]))
            L, tree = g.args
            rows, _ = whole(L, "rows to entries")
            skips = b == "cc_cedict"
            es = one_for_one(tree, "rows to entries", unparsed if skips else lambda p: False)
            decided(bool(es), "no entries")
            base = origin(rows)
            loops = {L}
            # files
            decided(base.op == "coll", "rows are %s" % show(base, 4))
            FL, ftree = base.args
            src, _ = whole(FL, "source files")
            loops.add(FL)
            one_for_one(ftree, "source files")
            rd = set()
            for lf in leaves(ftree):
                e = lf.args[0]
                decided(e.op == "spl", "rows of a file are added as %s" % show(e, 4))
                inner = origin(e.args[0])
                if inner.op == "coll":
                    loops.add(inner.args[0])
                rd |= set(leaves(records(inner, "rows of a file", r)))
            for x in rd:
                reader(x, "source files", skips)
            # the files: every match of the pattern
            gl = {u for u in subterms(src) if u.op == "call" and u.args[0] == "glob::glob"}
            decided(len(gl) == 1, "source files are %s" % show(src, 5))
            odd = {u.args[0] for u in subterms(src) if u.op == "mut"} & DROPS
            require(not odd, "source files are removed with %s" % sorted(odd))
            pat = gl.pop().args[1]
            lits = [u.args[0] for u in subterms(pat) if u.op == "str"]
            require(contains(pat, mk("par", "input_dir")), "files are looked for at %s" % show(pat, 5))
            decided(len(lits) == 1, "pattern %s" % show(pat, 5))
            quoted = {u: INT(0) for u in subterms(pat) if u.op == "call" and u.args[0].endswith("Pattern::escape")}
            require(not contains(subst(pat, quoted), mk("par", "input_dir")),
                    "characters of the directory's name are taken as part of the pattern: %s" % show(pat, 5))
            require(lits[0].split("/")[-1] == "*.csv", "only files matching %s are read" % lits[0])
            n = left_early(isv(r.ret, RESULT, "Ok"), loops)
            return "all rows of all files, %d early ends, each an error" % n
        return go

    def user_(b):
        def go():
            r = c.analyse("build_user_dict", "io", crate="lindera_%s_builder" % b)
            d = okfield(r.ret)
            g = group_of(unwrap_da(field(field(d, "dict"), "da")))
            L, tree = g.args
            es = one_for_one(tree, "rows to entries")
            rows = {base_rows(u.args[0]) for e in es for u in subterms(e) if u.op == "idx" and u.args[1] is mk("k", L)}
            src, _ = whole(L, "rows to entries")
            base = origin(src)
            loops = {L}
            if base.op in ("coll", "fin"):
                if base.op == "coll":
                    loops.add(base.args[0])
                rds = set(leaves(records(base, "rows of the file", r)))
            else:
                rds = set(leaves(base))
            for x in rows:
                o = origin(x)
                if o.op == "coll" and o is not base:
                    rds |= set(leaves(records(o, "rows of the file", r)))
            for x in rds:
                reader(x, "source file")
                fs = [u for u in subterms(x) if u.op == "call" and u.args[0] in ("ReaderBuilder::from_path", "File::open", "fs::read")]
                require(fs and all(contains(u, mk("par", "input_file")) for u in fs), "rows are read from %s" % [show(u, 3) for u in fs])
            n = left_early(isv(r.ret, RESULT, "Ok"), loops)
            return "all rows, %d early ends, each an error" % n
        return go

    def blank(path):
        """nothing but white space on the line"""
        return any(v and a.op == "zero" and a.args[0].op == "len" or v and a.op == "eq" and STR("") in a.args for a, v in path)

    def unk():
        r = c.analyse("parse_unk", "io", crate="lindera_core")
        p = mk("par", "file_content")
        d = okfield(r.ret)
        costs, refs = field(d, "costs"), field(d, "category_references")
        decided(costs.op == "coll", "unknown words are %s" % show(costs, 4))
        L, tree = costs.args
        src, _ = whole(L, "definitions of unknown words")
        one_for_one(tree, "definitions of unknown words", blank)
        lines = origin(src)
        if lines.op == "coll":
            one_for_one(lines.args[1], "lines of unk.def", blank)
            lines, _ = whole(lines.args[0], "lines of unk.def")
        same(lines, pure("str::lines", p), "what unknown words are read from")
        decided(refs.op == "coll", "unknown words of the categories are %s" % show(refs, 4))
        CL, ctree = refs.args
        cats, _ = whole(CL, "categories")
        require(cats is mk("par", "categories"), "unknown words are listed for %s" % show(cats, 4))
        inner = one_for_one(ctree, "categories")[0]
        if inner.op == "coll" and inner.args[0].args[0].op == "range" and inner.args[1].op == "seq" and len(inner.args[1].args) == 1:
            x = inner.args[1].args[0].args[0]   # part of a list that was collected before
            if x.op == "idx" and x.args[1] is mk("k", inner.args[0]):
                same(inner.args[0].args[0].args[1], length(x.args[0]), "number of unknown words of a category")
                inner = x.args[0]
        decided(inner.op == "coll", "unknown words of a category are %s" % show(inner, 4))
        IL, itree = inner.args
        whole(IL, "unknown words of a category")
        cat = index(cats, mk("k", CL))

        def other(path):
            return any(not v and a.op == "eq" and cat in a.args for a, v in path)
        one_for_one(itree, "unknown words of a category", other)
        n = left_early(isv(r.ret, RESULT, "Ok"), {L, CL, IL})
        return "every line, %d early ends, each an error" % n

    def matrix():
        r = c.analyse("CostMatrixBuilder::build", "io", crate="lindera_dictionary_builder")
        f = files(c, r, ["matrix.mtx"])["matrix.mtx"]
        WL, body = one_loop(f.items, "matrix file")
        arr = whole(WL, "cells of the matrix")[0]
        decided(arr.op == "fin", "matrix array is %s" % show(arr, 3))
        ls = [l for l in r.loops if arr.args[0] in l.steps]
        decided(len(ls) == 1, "loop filling the matrix")
        l = ls[0]
        src, _ = whole(l.L, "rows of the matrix")
        decided(src.op == "slice", "matrix rows are %s" % show(src, 4))
        lines = src.args[0]
        same(src.args[1], INT(1), "first row of the matrix")
        same(src.args[2], length(lines), "last row of the matrix")
        loops = {l.L}
        lines = origin(lines)
        if lines.op == "coll":
            loops.add(lines.args[0])
            one_for_one(lines.args[1], "lines of matrix.def", blank)
            lines, _ = whole(lines.args[0], "lines of matrix.def")
        decided(lines.op == "call" and lines.args[0] in ("str::lines",), "lines of matrix.def are %s" % show(lines, 4))
        step = assume_all(l.steps[arr.args[0]], l.cont)
        for lf in leaves(step):
            require(lf is not arr.args[0], "a row of matrix.def is left out: %s" % show(step, 5))
        n = left_early(isv(r.ret, RESULT, "Ok"), loops)
        return "every row, %d early ends, each an error" % n

    for b in BUILDERS:
        c.ob("system lexicon of %s" % b, system_(b))
        c.ob("user lexicon of %s" % b, user_(b))
    c.ob("unknown words", unk)
    c.ob("connection costs", matrix)
    c.floor("lexicons", len(BUILDERS), 5)
