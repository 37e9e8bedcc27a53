"""C22. Penalty::penalty, Mode::penalty_cost and Mode::is_search are reduced to decision diagrams
over the comparisons of the word length with the two thresholds, the kanji-only flag and the mode.
The rule: the diagram is the specified one (a word not longer than the kanji threshold costs
nothing; longer and kanji only: kanji penalty times the excess; otherwise longer than the other
threshold: other penalty times that excess; else nothing), the mode adds exactly that penalty in
decompose mode and nothing in normal mode, and the decompose mode obtained by name carries the
default penalty. The length is the value Edge::num_chars derives from the span."""
from .common import *

ASSUMES = ["the product of penalty and excess length fits 32 bits"]


def check(c):
    c.w()
    st = {}

    def length():
        r = c.analyse("Edge::num_chars", crate="lindera_core")
        a, b = field(SELF, "start_index"), field(SELF, "stop_index")
        t = uncast(r.ret)
        require(contains(t, a) and contains(t, b), "the word length is %s" % show(t, 5))
        if t.op == "bin" and t.args[0] == "Div":
            same(t, mk("bin", "Div", sub(b, a), INT(3)), "word length (kanji and kana take three bytes)")
        st["n"] = t
        return show(t, 5)

    def expected(p, edge):
        n = subst(st["n"], {SELF: edge})
        kt, kp = field(p, "kanji_penalty_length_threshold"), field(p, "kanji_penalty_length_penalty")
        ot, op = field(p, "other_penalty_length_threshold"), field(p, "other_penalty_length_penalty")
        ko = field(edge, "kanji_only")
        return ite(pos(sub(n, kt)), ite(as_bool(ko), mul(sub(n, kt), kp), ite(pos(sub(n, ot)), mul(sub(n, ot), op), INT(0))), INT(0))

    def penalty():
        r = c.analyse("Penalty::penalty", crate="lindera_core")
        ps = fn_params(c, r.key)
        for u in subterms(r.ret):
            require(u.op != "cast" or WIDTH.get(u.args[0], 8) >= 4 or u.args[2].op == "int", "%s is narrowed to %s" % (show(u.args[2], 5), u.args[0]) if u.op == "cast" else "")
        same(uncast(r.ret), expected(SELF, mk("par", ps[1])), "penalty of a word")
        return "as specified"

    def mode():
        r = c.analyse("Mode::penalty_cost", crate="lindera_core")
        ps = fn_params(c, r.key)
        e = [n for n in VARIANTS if n.endswith("lindera_core::mode::Mode")][0]
        n = variant(r.ret, SELF, e, "Normal")
        same(n, INT(0), "penalty in normal mode")
        d = variant(r.ret, SELF, e, "Decompose")
        same(uncast(d), expected(field(SELF, "0", "Decompose"), mk("par", ps[1])), "penalty in decompose mode")
        return "none in normal mode, the penalty in decompose mode"

    def search():
        r = c.analyse("Mode::is_search", crate="lindera_core")
        e = [n for n in VARIANTS if n.endswith("lindera_core::mode::Mode")][0]
        for v, want in (("Normal", FALSE), ("Decompose", TRUE)):
            t = variant(r.ret, SELF, e, v)
            decided(t in (TRUE, FALSE), "search mode is %s" % show(t, 4))
            require(t is want, "%s mode %s a search mode" % (v, "is not" if want is TRUE else "is"))
        return "decompose only"

    def default():
        d = c.analyse("Penalty::default", crate="lindera_core").ret
        from .c09 import fromstr, enum_named
        e = enum_named("Mode")
        r, inp = fromstr(c, "lindera_core", e)
        t = subst(r.ret, {inp: STR("decompose")})
        decided(t.op == "adt" and t.args[1] == "Ok", "parsing decompose gives %s" % show(t, 4))
        same(field(field(t, "0", "Ok"), "0", "Decompose"), d, "penalty of the decompose mode obtained by name")
        m = [k for k in c.w().find("Mode::default") if c.w().fns[k].crate == "lindera_core"]
        if m:
            t = analyse(m[0]).ret
            decided(t.op == "adt", "default mode %s" % show(t, 3))
            require(t.args[1] == "Normal", "the default mode is %s" % t.args[1])
        return show(d, 4)

    if c.ob("word length", length):
        c.ob("Penalty::penalty", penalty)
        c.ob("Mode::penalty_cost", mode)
    c.ob("Mode::is_search", search)
    c.ob("default penalty", default)
