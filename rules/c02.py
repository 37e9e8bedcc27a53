"""C02. For every character filter the loop that writes the filtered text is reduced to the segments
it consumes (end E and length n in the input) and what it emits for each (v), together with what
happens to the lists of offsets and differences.  The rule for one segment, with prev the last
difference reported (0 if none) and d = n - len(v): d = 0 reports nothing; d > 0 reports prev + d at
E - d - prev; d < 0 reports prev - e - 1 at E - prev + e for e = 0 .. -d-1.  Nothing but these
reports touches the lists, and add_offset_diff appends to both, or replaces the last difference
where the offset is the last one."""
from .common import *
from .c27 import method
from .c26 import joint, scan, strip

ASSUMES = ["regex: replace_all replaces the matches of captures_iter by what Captures::expand gives for them"]
NORMAL = {"UnicodeNormalization::" + x for x in ("nfc", "nfd", "nfkc", "nfkd")}
SELFCFG = field(SELF, "config")


def adders(c):
    ks = [k for k in c.w().find("add_offset_diff", crate="lindera_filter") if "promoted" not in k]
    if len(ks) != 1:
        raise Undecided("the function reporting corrections is not known")
    return tuple(ks)


def flip(t):
    """|x| and pos(-x) in terms of pos(x), zero(x)"""
    t = uncast(t)
    m = {}
    for u in subterms(t):
        if u.op == "call" and u.args[0].split("::")[-1] in ("unsigned_abs", "abs", "wrapping_abs") and len(u.args) == 2:
            x = u.args[1]
            m[u] = ite(pos(x), x, mulc(x, -1))
        if u.op == "eq" and not any(x.op in ("str", "adt", "tup") for x in u.args):
            m[u] = zero(sub(*u.args))
    return subst(t, m) if m else t


def report(v):
    """(i, [O, D, offset, diff]) if v is what a report leaves in list i"""
    if v.op == "mut" and str(v.args[0]).endswith("add_offset_diff"):
        return v.args[1], list(v.args[2])
    return None


def loops_of(r):
    return {l.L: l for l in r.loops}


def owner(r, m):
    """the loop whose variable m is"""
    for l in r.loops:
        if m in l.steps:
            return l
    return None


def segment(r, o, d, O, D, E, n, v, g, what, names=None):
    """the step of both lists for one segment under g"""
    dl = uncast(sub(n, length(v)))
    g = flip(g)
    z, p, m = zero(dl), pos(dl), pos(mulc(dl, -1))
    prev = ite(zero(length(D)), INT(0), index(D, sub(length(D), INT(1))))
    nm = {O: mk("par", "offsets so far"), D: mk("par", "differences so far"), v: mk("par", "text emitted")}
    nm.update(names or {})

    def eq_(a, b, g2, t):
        a, b = flip(a), flip(b)
        a, b = restrict(a, g2), restrict(b, g2)
        same(subst(a, nm), subst(b, nm), "%s, %s" % (what, t), extra_vocab=vocab(v) | vocab(E) | NORMAL)
    k = 0
    for case, g2 in (("unchanged", AND(z, AND(NOT(p), NOT(m)))), ("shorter", AND(p, AND(NOT(z), NOT(m)))), ("longer", AND(m, AND(NOT(z), NOT(p))))):
        h = AND(g, g2)
        if h is FALSE:
            continue
        k += 1
        for x, y, g3 in joint(restrict(o, TRUE), restrict(d, TRUE)):
            h2 = AND(h, flip(g3))
            if h2 is FALSE or x.op in ("undef", "dead") or y.op in ("undef", "dead"):
                continue
            if case == "unchanged":
                if x is O and y is D:
                    continue
                if report(x) or report(y):
                    raise Violated("%s: a correction is reported for a replacement of the same length" % what)
                raise Undecided("%s: replacement of the same length leaves %s" % (what, show(x, 4)))
            if x is O and y is D:
                raise Violated("%s: nothing is reported for a %s replacement if %s" % (what, case, show(h2, 5)))
            a, b = report(x), report(y)
            if case == "shorter":
                decided(a and b, "%s: a shorter replacement leaves %s" % (what, show(mk("tup", x, y), 4)))
                require(a[0] == 0 and b[0] == 1 and a[1] == b[1], "%s: the lists are reported to inconsistently" % what)
                require(a[1][0] is O and a[1][1] is D, "%s: a shorter replacement is reported to other lists" % what)
                eq_(a[1][2], sub(sub(E, dl), prev), h2, "shorter: offset reported")
                eq_(a[1][3], add(prev, dl), h2, "shorter: difference reported")
            else:
                if a and b:
                    raise Violated("%s: a longer replacement is reported by a single correction" % what)
                decided(x.op == "fin" and y.op == "fin", "%s: a longer replacement leaves %s" % (what, show(mk("tup", x, y), 4)))
                mx, my = x.args[0], y.args[0]
                l = owner(r, mx)
                decided(l is not None and my in l.steps, "%s: reports of a longer replacement" % what)
                require(l.inits[mx] is O and l.inits[my] is D, "%s: the reports of a longer replacement start from %s" % (what, show(l.inits[mx], 4)))
                a, b = report(l.steps[mx]), report(l.steps[my])
                decided(a and b and l.cont is TRUE, "%s: a longer replacement reports %s" % (what, show(l.steps[mx], 4)))
                require(a[0] == 0 and b[0] == 1 and a[1] == b[1] and a[1][0] is mx and a[1][1] is my, "%s: the lists are reported to inconsistently" % what)
                src = l.L.args[0]
                decided(src.op in ("range", "over"), "%s: reports over %s" % (what, show(src, 4)))
                kk = mk("k", l.L)
                lo, hi = src.args if src.op == "range" else (INT(0), length(src.args[0]))
                eq_(sub(hi, lo), mulc(dl, -1), h2, "longer: number of reports")
                j = mk("par", "extra byte")
                nm[kk] = nm[flip(kk)] = add(j, lo)
                eq_(a[1][2], add(sub(E, prev), j), h2, "longer: offsets reported")
                eq_(a[1][3], sub(sub(prev, j), INT(1)), h2, "longer: differences reported")
    return k


def lists(r, i):
    """leaf terms of the i-th part of the result"""
    v = okfield(r.ret)
    return field(v, str(i))


def state(r, t, what):
    """(loop, variable) whose final value the result t is"""
    t = restrict(t, TRUE)
    ls = [x for x in leaves(t) if x.op not in ("undef", "dead")]
    decided(len(ls) == 1, "%s: %s" % (what, show(t, 4)))
    x = ls[0]
    m = x.args[0] if x.op == "fin" else x
    decided(m.op == "mu", "%s: %s" % (what, show(t, 4)))
    l = owner(r, m)
    decided(l is not None, "%s is not kept in a loop" % what)
    return l, m


def empty(t):
    return (t.op == "arr" and not t.args) or (t.op == "call" and t.args[0].endswith("::new")) or length(t) is INT(0)


def started(l, O, D, what):
    require(empty(l.inits[O]) and empty(l.inits[D]), "%s: the lists start as %s" % (what, show(mk("tup", l.inits[O], l.inits[D]), 4)))


def check(c):
    c.w()

    def names(adt_):
        return c.analyse(method(c, adt_, "apply"), None, opaque=adders(c))

    def text(r):
        return mk("par", fn_params(c, r.key)[1])

    # ---- unicode normalization
    def normalize():
        w = "unicode_normalize"
        r = names("UnicodeNormalizeCharacterFilter")
        (l, O), (l2, D) = state(r, lists(r, 1), "offsets"), state(r, lists(r, 2), "differences")
        decided(l is l2, "the lists are kept in different loops")
        started(l, O, D, w)
        out = lists(r, 0)
        decided(out.op == "call" and out.args[0] == "concat" or out.op == "concat", "text returned: %s" % show(out, 4))
        co = [u for u in subterms(out) if u.op == "coll" and u.args[0] is l.L]
        decided(len(co) == 1, "text returned: %s" % show(out, 4))
        tr = co[0].args[1]
        decided(tr.op == "seq" and len(tr.args) == 1, "text returned: %s" % show(tr, 4))
        V = tr.args[0].args[0]
        src = l.L.args[0]
        decided(src.op == "over", "segments: %s" % show(src, 4))
        seg = index(src.args[0], mk("k", l.L))
        g0 = src.args[0]
        decided(g0.op == "call" and g0.args[0].endswith("graphemes"), "segments: %s" % show(g0, 4))
        require(g0.args[1] is text(r), "the segments are those of %s" % show(g0.args[1], 4))
        n = length(seg)
        E = add(psum(l.L, n, mk("k", l.L)), n)
        want = {"NFC": "nfc", "NFD": "nfd", "NFKC": "nfkc", "NFKD": "nfkd"}
        k = 0
        for x, _, g in joint(V, TRUE):
            if x.op in ("undef", "dead"):
                continue
            k += segment(r, assume_(l.steps[O], g), assume_(l.steps[D], g), O, D, E, n, x, g, w)
        decided(k >= 3, "the cases are not known")
        for kind, fn_ in want.items():
            x = variant(V, field(SELFCFG, "kind"), "lindera_filter::character_filter::unicode_normalize::UnicodeNormalizeKind", kind)
            same(x, subst_fn(x, seg, fn_), "segment normalized for %s" % kind, extra_vocab=NORMAL)
        return "each grapheme by its normal form"

    def subst_fn(x, seg, fn_):
        cs = [u for u in subterms(x) if u.op == "call" and u.args[0].startswith("UnicodeNormalization::")]
        decided(len(cs) == 1, "segment emitted: %s" % show(x, 4))
        return subst(x, {cs[0]: mk("call", "UnicodeNormalization::" + fn_, seg)})

    c.ob("unicode_normalize: corrections", normalize)

    # ---- mapping
    def mapping():
        w = "mapping"
        r = names("MappingCharacterFilter")
        (l, O), (l2, D) = state(r, lists(r, 1), "offsets"), state(r, lists(r, 2), "differences")
        l3, R = state(r, lists(r, 0), "text returned")
        decided(l is l2 and l is l3, "text and lists are written in different loops")
        started(l, O, D, w)
        srch = [u for m in l.steps for u in subterms(l.steps[m]) if u.op == "call" and u.args[0] == "DoubleArray::common_prefix_search"]
        decided(srch, "no search for keys")
        hay = strip(srch[0].args[2])
        decided(hay.op == "slice", "text searched: %s" % show(hay, 5))
        tx, P, _ = hay.args
        decided(P in l.steps, "position searched: %s" % show(P, 5))
        k = 0
        for x, p, g in joint(l.steps[R], l.steps[P]):
            if p.op in ("undef", "dead") or x.op in ("undef", "dead"):
                continue
            decided(x.op == "app" and x.args[0] is R, "a step appends %s" % show(x, 4))
            v = x.args[1].args[1]
            n = sub(p, P)
            if v is index(mk("call", "str::chars", slice_(tx, P, length(tx))), INT(0)) or v is slice_(tx, P, p):
                o, d = assume_(l.steps[O], g), assume_(l.steps[D], g)
                require(not report(o) and not report(d), "%s: a correction is reported for a character copied" % w)
                decided(o is O and d is D, "%s: copying a character leaves %s" % (w, show(o, 4)))
                continue
            k += segment(r, assume_(l.steps[O], g), assume_(l.steps[D], g), O, D, p, n, v, g, w, {P: mk("par", "position"), n: mk("par", "length consumed")})
        decided(k >= 3, "the cases are not known")
        return "each replacement"
    c.ob("mapping: corrections", mapping)

    # ---- regular expressions
    def regex():
        w = "regex"
        r = names("RegexCharacterFilter")
        (l, O), (l2, D) = state(r, lists(r, 1), "offsets"), state(r, lists(r, 2), "differences")
        decided(l is l2, "the lists are kept in different loops")
        started(l, O, D, w)
        out = lists(r, 0)
        if out.op == "call" and out.args[0] in ("Regex::replace", "Regex::replacen"):
            raise Violated("regex: not every match is replaced: %s" % show(out, 4))
        decided(out.op == "call" and out.args[0] == "Regex::replace_all", "text returned: %s" % show(out, 4))
        rx, tx, rep = out.args[1:4]
        same(rx, field(SELF, [f["name"] for n, a in c.w().adts.items() if n.endswith("::RegexCharacterFilter") for v in a["variants"]
                              for f in v["fields"] if "Regex" in str(f.get("ty")) and "Config" not in str(f.get("ty"))][0]), "expression replaced")
        same(tx, text(r), "text filtered")
        same(rep, field(SELFCFG, "replacement"), "replacement")
        src = l.L.args[0]
        decided(src.op == "over", "matches: %s" % show(src, 4))
        s = src.args[0]
        decided(s.op == "call" and s.args[0] in ("Regex::captures_iter", "Regex::find_iter"), "matches: %s" % show(s, 4))
        same(s.args[1], rx, "expression matched")
        same(s.args[2], tx, "text matched")
        el = index(s, mk("k", l.L))
        caps = s.args[0] == "Regex::captures_iter"
        m = mk("call", "Captures::whole", el) if caps else el
        n = length(mk("call", "Match::as_str", m))
        E = add(mk("call", "Match::start", m), n)
        vs = set()
        for x in [l.steps[O], l.steps[D]]:
            for u in subterms(x):
                if u.op == "mut" and str(u.args[0]).endswith("Captures::expand") and u.args[1] == 2:
                    vs.add(u)
        if not vs:
            uses = {u for x in (l.steps[O], l.steps[D]) for u in subterms(x)}
            if length(field(SELFCFG, "replacement")) in uses:
                raise Violated("regex: the corrections are computed from the replacement before it is expanded")
            raise Undecided("regex: the text emitted is not known")
        decided(len(vs) == 1, "regex: the text emitted is not known")
        v = vs.pop()
        same(v.args[2][0], el, "captures expanded")
        same(v.args[2][1], rep, "replacement expanded")
        require(v.args[2][2] is STR(""), "the expansion is appended to %s" % show(v.args[2][2], 4))
        k = segment(r, l.steps[O], l.steps[D], O, D, E, n, v, TRUE, w)
        decided(k == 3, "the cases are not known")
        return "each match"
    c.ob("regex: corrections", regex)

    # ---- iteration marks
    NAME = "JapaneseIterationMarkCharacterFilter"
    st = {}

    def marks():
        w = "japanese_iteration_mark"
        ks = [k for k in c.w().fns if "japanese_iteration_mark" in k and k.endswith("::normalize") and "promoted" not in k]
        decided(len(ks) == 1, "the function replacing the marks is not known")
        r = c.analyse(method(c, NAME, "apply"), None, opaque=adders(c) + tuple(ks))
        tx = mk("call", "str::chars", text(r))
        main = [l for l in r.loops if l.L.op == "L" and l.L.args[0] is mk("over", tx)]
        decided(len(main) == 1, "the loop over the characters is not known")
        main = main[0]
        norms = {u for l in r.loops for m in l.steps for u in subterms(l.steps[m]) if u.op == "call" and u.args[0].endswith("::normalize")}
        norms |= {u for u in subterms(r.ret) if u.op == "call" and u.args[0].endswith("::normalize")}
        # the lists
        out, offs, diffs = (lists(r, i) for i in (0, 1, 2))
        ms = [m for m in main.steps if m in {x for n in norms for x in subterms(n)}]
        M = [m for m in ms if any(n.args[2] is m or n.args[2] is mk("fin", m) for n in norms)]
        decided(len(M) == 1, "the pending marks are not known")
        M = M[0]
        R = [m for m in main.steps if any(mk("fin", m) in subterms(x) or m is x for x in leaves(out))]
        R = [m for m in R if m is not M and main.inits[m] is STR("")]
        decided(len(R) == 1, "the text written is not known")
        R = R[0]
        O = unique([m for m in main.steps if any(x is mk("fin", m) for x in leaves(offs))], "offsets")
        D = unique([m for m in main.steps if any(x is mk("fin", m) for x in leaves(diffs))], "differences")
        started(main, O, D, w)
        st.update(r=r, main=main, M=M, R=R, O=O, D=D, out=out, offs=offs, diffs=diffs, w=w)
        ch = index(tx, mk("k", main.L))
        # one character
        n = 0
        for x, rest, g in joint(hoist(main.steps[R]), mk3(main.steps[M], mk3(main.steps[O], main.steps[D]))):
            mm, rest = rest.args
            o, d = rest.args
            if any(q.op in ("undef", "dead") for q in (x, mm, o, d)):
                continue
            n += 1
            if x is R:
                # a mark: kept pending
                require(o is O and d is D, "%s: a correction is reported although nothing is written if %s" % (w, show(g, 4)))
                want = mk("app", M, mk("item", "insert", mk("tup", mk("k", main.L), ch)))
                if mm is M:
                    raise Violated("%s: a character is dropped if %s" % (w, show(g, 5)))
                # positions only grow, so a list of them is in order as well
                mm = subst(mm, {mk("app", M, mk("item", "push", want.args[1].args[1])): want})
                same(subst(mm, {M: mk("par", "marks")}), subst(want, {M: mk("par", "marks")}), "%s: marks pending" % w)
                continue
            decided(x.op == "app" and x.args[1].args[1] is ch, "%s: a step writes %s" % (w, show(x, 4)))
            if x.args[0] is R:
                require(AND(g, NOT(zero(length(M)))) is FALSE or mm.op == "mu", "%s: pending marks are dropped if %s" % (w, show(g, 5)))
                require(o is O and d is D, "%s: a correction is reported although the character is copied" % w)
                require(mm is M, "%s: pending marks are dropped if %s" % (w, show(g, 5)))
                require(AND(g, NOT(zero(length(M)))) is FALSE, "%s: a character is written before the marks preceding it if %s" % (w, show(g, 5)))
                continue
            y = x.args[0]
            decided(y.op == "app" and y.args[0] is R and y.args[1].args[1] in norms, "%s: a step writes %s" % (w, show(x, 5)))
            require(empty(mm), "%s: marks stay pending after they are written" % w)
            flush(o, d, O, D, y.args[1].args[1], M, "between characters")
        decided(n >= 3, "the cases are not known")
        return "each mark"

    def unique(xs, what):
        decided(len(xs) == 1, "%s are not known" % what)
        return xs[0]

    def mk3(a, b):
        return maptree(a, lambda x: maptree(b, lambda y: mk("tup", x, y)))

    def flush(o, d, O, D, v, M, what):
        r, w = st["r"], st["w"]
        if o is O and d is D:
            raise Violated("%s: no correction is reported for the marks replaced %s" % (w, what))
        decided(o.op == "fin" and d.op == "fin", "%s: replacing marks leaves %s" % (w, show(mk("tup", o, d), 4)))
        mo, md = o.args[0], d.args[0]
        l = owner(r, mo)
        decided(l is not None and md in l.steps and l.cont is TRUE, "%s: reports of marks" % w)
        require(l.inits[mo] is O and l.inits[md] is D, "%s: the reports start from other lists %s" % (w, what))
        mi = M if M in leaves(l.L.args[0].args[0]) else mk("call", "map_iter", M)
        vc = mk("call", "str::chars", v)
        k = mk("k", l.L)
        src = l.L.args[0]
        decided(src.op == "over" and {x for x in leaves(src.args[0])} <= {mi, vc}, "%s: reports over %s" % (w, show(src, 5)))
        mark, rep = field(index(mi, k), "1"), index(vc, k)
        n = mk("call", "char::len_utf8", mark)
        q = mk("call", "char::len_utf8", rep)
        start = [m for m in st["main"].steps if st["main"].inits[m] is INT(0) and any(m in subterms(l.steps[x]) or mk("fin", m) in subterms(l.steps[x]) for x in (mo, md))
                 or (st["main"].inits[m] is INT(0) and any(m is l.inits[x] or mk("fin", m) is l.inits[x] for x in l.inits))]
        decided(len(start) == 1, "%s: the position of the marks is not known" % w)
        S = start[0]
        st["S"] = S
        S_ = mk("fin", S) if what == "at the end" else S
        E = add(add(S_, psum(l.L, n, k)), n)
        kk = segment2(r, l.steps[mo], l.steps[md], mo, md, E, n, rep, q, "%s %s" % (w, what))
        decided(kk == 3, "the cases are not known")

    def segment2(r, o, d, O, D, E, n, rep, q, what):
        v = mk("par", "replacement of the mark")
        m = {q: length(v)}
        return segment(Sub(r, m), subst(o, m), subst(d, m), subst(O, m), subst(D, m), subst(E, m), n, v, TRUE, what)

    def tail():
        main, M, R, O, D, w = (st[x] for x in ("main", "M", "R", "O", "D", "w"))
        n = 0
        for x, rest, g in joint(hoist(st["out"]), mk3(st["offs"], st["diffs"])):
            o, d = rest.args
            if any(q.op in ("undef", "dead") for q in (x, o, d)):
                continue
            n += 1
            if x is mk("fin", R):
                require(AND(g, NOT(zero(length(mk("fin", M))))) is FALSE, "%s: marks at the end of the text are dropped if %s" % (w, show(g, 5)))
                require(o is mk("fin", O) and d is mk("fin", D), "%s: corrections are reported although nothing is written" % w)
                continue
            decided(x.op == "app" and x.args[0] is mk("fin", R), "%s: text returned is %s" % (w, show(x, 4)))
            flush(o, d, mk("fin", O), mk("fin", D), x.args[1].args[1], mk("fin", M), "at the end")
        decided(n >= 2, "the cases are not known")
        return "marks at the end"

    def position():
        main, M, w, S = st["main"], st["M"], st["w"], st["S"]
        ch = index(mk("call", "str::chars", text(st["r"])), mk("k", main.L))
        nch = mk("call", "char::len_utf8", ch)
        n = 0
        for x, rest, g in joint(hoist(main.steps[st["R"]]), main.steps[S]):
            if x.op in ("undef", "dead") or rest.op in ("undef", "dead"):
                continue
            moved = sub(rest, S)
            sums = {}
            for u in subterms(moved):
                if u.op == "sum":
                    L = u.args[0]
                    marks_ = [x for x in (M, mk("call", "map_iter", M)) if L.args[0] is mk("over", x)]
                    if marks_ and u.args[1] is mk("call", "char::len_utf8", field(index(marks_[0], mk("k", L)), "1")):
                        sums[u] = mk("par", "length of the pending marks")
            moved = subst(moved, sums)
            n += 1
            ren = {M: mk("par", "marks")}
            moved = subst(moved, ren)
            if x is st["R"]:
                same(uncast(moved), INT(0), "%s: position of the pending marks after another mark" % w)
            elif x.args[0] is st["R"]:
                same(uncast(moved), nch, "%s: distance moved for a character" % w)
            else:
                same(uncast(moved), add(nch, mk("par", "length of the pending marks")), "%s: distance moved for pending marks and a character" % w,
                     extra_vocab=[u for u in vocab(moved) if u.endswith("::normalize")])
        decided(n >= 3, "the cases are not known")
        return "the position follows the text"

    if c.ob("japanese_iteration_mark: corrections", marks):
        c.ob("japanese_iteration_mark: corrections at the end", tail)
        c.ob("japanese_iteration_mark: position", position)

    # ---- the report itself
    def adder():
        ks = adders(c)
        r = c.analyse(ks[0])
        ps = fn_params(c, ks[0])
        O, D, o, d = [mk("par", x) for x in ps]
        again = AND(NOT(zero(length(O))), eq(o, index(O, sub(length(O), INT(1)))))
        # both lists have the same length
        some = {length(D): length(O)}
        fo, fd = hoist(r.final(ps[0])), hoist(r.final(ps[1]))
        push = lambda a, x: mk("app", a, mk("item", "push", x))
        same(fo, ite(again, O, push(O, o)), "offsets after a report")
        last = sub(length(D), INT(1))
        for y, _, g in joint(fd, TRUE):
            g = AND(subst(g, some), again)
            if g is FALSE or y in (updi(D, last, d), push(mk("call", "vec_pop", D), d)):
                continue
            if y is D:
                raise Violated("a difference reported again for the last offset is ignored")
            if y is push(D, d):
                raise Violated("a difference reported again for the last offset does not replace the one before")
            raise Undecided("differences after a report again: %s" % show(y, 5))
        fd = mk("tup", *[y for y, _, g in joint(fd, TRUE) if AND(subst(g, some), NOT(again)) is not FALSE])
        fd = fd.args[0] if len(fd.args) == 1 else fd
        same(fd, push(D, d), "differences after a report")
        return "both lists grow together"
    c.ob("a report", adder)

    c.floor("character filters", len([a for a in c.w().adts if a.endswith("CharacterFilter") and "Box" not in a]), 4)


def hoist(t):
    """appends to alternatives as alternatives"""
    def f(x):
        if x.op == "app":
            return maptree(hoist(x.args[0]), lambda b: mk("app", b, *x.args[1:]))
        return x
    return maptree(t, f)


class Sub:
    """an analysis with some values renamed in the loops"""
    def __init__(self, r, m):
        f = m if callable(m) else lambda t: subst(t, m)
        self.loops = [SubLoop(l, f) for l in r.loops]


class SubLoop:
    def __init__(self, l, f):
        self.L, self.cont = f(l.L), f(l.cont)
        self.inits = {f(k): f(v) for k, v in l.inits.items()}
        self.steps = {f(k): f(v) for k, v in l.steps.items()}


def assume_(t, g):
    return restrict(t, g)


def field_some(t):
    return mk("f", t, "Some", "0")
