"""C27. Three independent pieces of code have to agree on what a detail column means: the
expansion of a simplified user dictionary row by each dictionary builder, the minimum
number of columns that builder demands of a detailed row, and the columns in which the
base form and reading filters look for a token's forms.  The analysis derives, per
dictionary, the list a simplified row is expanded to (column by column), for which row
lengths the builder accepts a row, and per dictionary kind the column each filter copies
into the token text, and the rule compares them.  It also collects the encodings of every
text decoded during a dictionary build and the row lengths accepted in unk.def."""
from .common import *
from .c05 import elements
from .c28 import BUILDERS, split_rows, column

ENC = {"ipadic": "EUC-JP"}
UNK_COLUMNS = {"ipadic": 11, "ipadic-neologd": 11, "unidic": 10, "ko-dic": 12, "cc-cedict": 10}
KIND = {"ipadic": "IPADIC", "ipadic-neologd": "IPADICNEologd", "unidic": "UniDic", "ko-dic": "KoDic"}
FEATURES = ("ipadic", "ipadic-neologd", "unidic")


def method(c, adt, name, cfg="default"):
    """the method `name` of type `adt`"""
    w = c.w(cfg)
    ks = [k for k in w.find(name) if "promoted" not in k and (w.fns[k].d.get("impl_self") or "").split("<")[0].split("::")[-1] == adt]
    if not ks:
        raise Missing("no method %s of %s" % (name, adt))
    if len(ks) > 1:
        raise Missing("method %s of %s is ambiguous" % (name, adt))
    return ks[0]


def text_column(c, adt, kind=None):
    """the detail column a filter replaces a known token's text by, for a dictionary kind"""
    r = c.analyse(method(c, adt, "apply"))
    t = r.final("tokens")
    decided(t is not None and t.op == "coll", "%s: tokens become %s" % (adt, t is not None and show(t, 4)))
    body = t.args[1]
    if kind is not None:
        subj = {u.args[0] for u in subterms(body) if u.op == "is" and u.args[1].endswith("DictionaryKind")}
        enum = {u.args[1] for u in subterms(body) if u.op == "is" and u.args[1].endswith("DictionaryKind")}
        decided(len(subj) == 1, "%s: dictionary kind is not tested" % adt)
        body = variant(body, subj.pop(), enum.pop(), kind)
    cols = set()
    for e in elements(body):
        if e.op != "upd":
            continue
        txt = field(e, "text")
        decided(txt.op == "idx" and txt.args[1].op == "int", "%s: the text becomes %s" % (adt, show(txt, 5)))
        require(txt.args[0].op == "f" and txt.args[0].args[2] == "details", "%s: the text becomes %s" % (adt, show(txt, 5)))
        cols.add(txt.args[1].args[0])
    require(len(cols) == 1, "%s%s replaces the text by columns %s" % (adt, " for " + kind if kind else "", sorted(cols)))
    return cols.pop()


def check(c):
    c.w()
    st = {}

    def simple(name, crate):
        def go():
            r = c.analyse("build_user_dict", "all", crate=crate)
            ok = isv(r.ret, RESULT, "Ok")
            d = assume_all(okfield(r.ret), ok)
            _, body = one_loop(bytes_of(field(d, "words_data")), "details")
            decided(len(body) == 1, "details record is %s" % body)
            s, _ = split_rows(c, body[0].val)
            s = unrolled(s)
            decided(s.op == "arr", "a simplified row's details are %s" % show(s, 5))
            at = {}
            for i, e in enumerate(s.args):
                if e.op == "str":
                    require(e.args[0] == "*", "detail %d of a simplified row is %r" % (i, e.args[0]))
                    continue
                row, n = column(e)
                at.setdefault(n, []).append(i)
            require(at.get(1) == [0], "the part of speech of a simplified row goes to details %s" % at.get(1))
            require(len(at.get(2, [])) == 1, "the reading of a simplified row goes to details %s" % at.get(2, []))
            require(not set(at) - {0, 1, 2}, "columns %s of a simplified row are used" % sorted(at))
            st[name] = (at, len(s.args), ok, row)
            return "%d details: %s" % (len(s.args), {("surface", "part of speech", "reading")[k]: v for k, v in at.items()})
        return go

    def lengths(name):
        def go():
            at, n, ok, row = st[name]
            ln = length(row)
            ex = [u for u in atoms(ok) if u.op == "exists" and
                  any(a.op in ("zero", "pos") and norm_len(u, ln) in dict(lin_parts(a.args[0])[1]) for a in atoms(u.args[1]))]
            decided(bool(ex), "no row is rejected for its length")

            def accepted(k):
                return all(subst(u.args[1], {norm_len(u, ln): INT(k)}) is FALSE for u in ex)
            for u in ex:
                for k in range(0, 40):
                    decided(subst(u.args[1], {norm_len(u, ln): INT(k)}) in (TRUE, FALSE),
                            "rows are rejected if %s" % show(u.args[1], 6))
            full = [k for k in range(4, 40) if accepted(k)]
            require(accepted(3), "rows of three columns are rejected")
            require(bool(full), "every detailed row is rejected")
            require(full[0] == n + 4, "a simplified row gets %d details, a detailed row of at least %d columns has at least %d" %
                    (n, full[0], full[0] - 4))
            require(full == list(range(full[0], 40)), "detailed rows of %s columns are accepted" % full)
            return "detailed rows have at least %d columns" % full[0]
        return go

    def norm_len(u, ln):
        for x in subterms(u.args[1]):
            if x.op == "len" and (x is ln or norm(x) is norm(ln)):
                return x
        return ln

    for name, crate in BUILDERS.items():
        if c.ob("%s: simplified rows" % name, simple(name, crate)):
            c.ob("%s: row lengths" % name, lengths(name))

    def reading(name):
        def go():
            at = st[name][0]
            if name == "ko-dic":
                f, col = "KoreanReadingFormTokenFilter", text_column(c, "KoreanReadingFormTokenFilter")
            else:
                f, col = "JapaneseReadingFormTokenFilter", text_column(c, "JapaneseReadingFormTokenFilter", KIND[name])
            require(at[2] == [col], "%s reads the reading from detail %d, a simplified row stores it in detail %d" % (f, col, at[2][0]))
            return "detail %d" % col
        return go

    def base(name):
        def go():
            at = st[name][0]
            col = text_column(c, "JapaneseBaseFormTokenFilter", KIND[name])
            require(at.get(0) == [col], "JapaneseBaseFormTokenFilter reads the base form from detail %d, a simplified row stores it in %s" %
                    (col, at.get(0)))
            return "detail %d" % col
        return go

    for name in ("ipadic", "ipadic-neologd", "unidic", "ko-dic"):
        if name in st:
            c.ob("%s: reading" % name, reading(name))
    for name in ("ipadic", "ipadic-neologd"):
        if name in st:
            c.ob("%s: base form" % name, base(name))

    def uni_base():
        col = text_column(c, "JapaneseBaseFormTokenFilter", "UniDic")
        require(col == 10, "JapaneseBaseFormTokenFilter reads the base form of UniDic words from detail %d" % col)
        return "detail %d" % col
    c.ob("unidic: base form column", uni_base)

    def build(name, crate):
        def go():
            r = c.analyse("build_dictionary", "all", crate=crate)
            enc, n = set(), 0
            for root in [v for _, _, v, _, _ in r.writers] + [r.ret]:
                for u in subterms(root):
                    if u.op == "call" and u.args[0].startswith("Encoding::for_label"):
                        enc.add(u.args[1])
                    n += u.op == "call" and u.args[0].startswith("Encoding::decode")
            decided(bool(enc), "no encoding is looked up")
            decided(all(e.op == "str" for e in enc), "encodings are %s" % [show(e) for e in enc])
            got = {e.args[0].upper() for e in enc}
            want = ENC.get(name, "UTF-8")
            require(got == {want}, "sources of %s are decoded as %s, they are %s" % (name, sorted(got), want))
            return "%d decoded texts in %s" % (n, want)
        return go

    def unk(name, crate):
        def go():
            r = c.analyse("build_dictionary", "all", crate=crate)
            ok = isv(r.ret, RESULT, "Ok")
            ex = []
            for u in subterms(ok):
                if u.op != "exists":
                    continue
                src = u.args[0].args[0]
                if any(x.op == "str" and x.args[0].endswith("unk.def") for x in subterms(src)):
                    ex.append(u)
            decided(bool(ex), "no line of unk.def is rejected")
            n = None
            for u in ex:
                lens = {x for x in subterms(u.args[1]) if x.op == "len" and any(y.op == "call" and y.args[0] == "str::split" for y in subterms(x))}
                if len(lens) != 1:
                    continue
                ln = lens.pop()
                rej = [subst(u.args[1], {ln: INT(k)}) for k in range(0, 40)]
                if all(x in (TRUE, FALSE) for x in rej):
                    okk = {k for k in range(0, 40) if rej[k] is FALSE}
                    n = okk if n is None else n & okk
            decided(n is not None, "the columns of unk.def are tested by %s" % [show(u.args[1], 5) for u in ex])
            require(n == {UNK_COLUMNS[name]}, "unk.def of %s has %d columns, lines of %s are accepted" %
                    (name, UNK_COLUMNS[name], sorted(n)))
            return "lines of %d columns" % UNK_COLUMNS[name]
        return go

    for name, crate in BUILDERS.items():
        c.ob("%s: encoding" % name, build(name, crate))
        c.ob("%s: columns of unk.def" % name, unk(name, crate))
