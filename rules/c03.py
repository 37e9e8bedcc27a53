"""C03. Analyzer::analyze is reduced to its stages with every filter, the tokenizer and
correct_offset left uninterpreted.  The rule: the text starts as the input and becomes, once per
character filter in list order, the first part of that filter's result; the tokenizer gets the final
text; one token per token of its result, field for field, is handed through every token filter in
list order; both ends of every token are then passed through correct_offset with the three parts
one and the same character filter reported, for all filters that reported any, latest first; and an
error of a stage ends the call with that error.  correct_offset adds the difference of the last
offset not behind the one given.  Clones are compared field by field."""
from .common import *
from .c26 import joint
from .c27 import method

ASSUMES = ["slice::binary_search: Ok(i) at the element, Err(i) with i elements below",
           "TokenFilter, CharacterFilter and Clone implementations do not panic"]
APPLY_C, APPLY_T, TOK = "CharacterFilter::apply", "TokenFilter::apply", "Tokenizer::tokenize"
CORR = "character_filter::correct_offset"


def calls(t, name):
    return [u for u in subterms(t) if u.op == "call" and u.args[0] == name]


def mutcalls(t, name):
    return [u for u in subterms(t) if u.op == "mut" and u.args[0] == name]


def live(t):
    return [x for x in leaves(t) if x.op not in ("undef", "dead")]


def members(c, adt_, part):
    """the field of a type whose type mentions part"""
    for n, a in c.w().adts.items():
        if n.endswith("::" + adt_):
            fs = [f["name"] for v in a["variants"] for f in v["fields"] if part in str(f.get("ty"))]
            if len(fs) == 1:
                return fs[0]
    raise Missing("%s has no field of type %s" % (adt_, part))


def elem(base, L, what):
    """(element, condition for adding it, "front" or "back") of a list filled once per turn of L"""
    if base.op == "coll":
        decided(base.args[0] is L, "%s: %s" % (what, show(base, 4)))
        add_ = maptree(base.args[1], lambda x: bconst(x.op == "seq" and len(x.args) > 0))
        xs = [x for x in live(base.args[1]) if x.op == "seq" and x.args]
        decided(len(xs) == 1 and len(xs[0].args) == 1, "%s: %s" % (what, show(base, 4)))
        return xs[0].args[0].args[0], add_, "back"
    raise Undecided("%s: %s" % (what, show(base, 4)))


def check(c):
    c.w()
    st = {}
    key = method(c, "Analyzer", "analyze")
    opq = tuple(k for n in ("tokenize", "correct_offset", "get_details") for k in c.w().find(n) if "promoted" not in k and not k.startswith("lindera::"))

    def run():
        if "r" not in st:
            r = c.analyse(key, None, opaque=opq)
            st["r"] = r
            st["text"] = mk("par", fn_params(c, key)[1])
            st["ret"] = restrict(r.ret, NOT(zero(length(st["text"]))))
            st["cf"] = field(SELF, members(c, "Analyzer", "BoxCharacterFilter"))
            st["tf"] = field(SELF, members(c, "Analyzer", "BoxTokenFilter"))
            st["tk"] = field(SELF, members(c, "Analyzer", "::Tokenizer"))
        return st["r"]

    def in_order(l, src, call_filter, what):
        f = call_filter
        decided(f.op == "idx", "%s: %s" % (what, show(f, 4)))
        b, i = f.args
        if b.op == "slice":
            raise Violated("%s: only %s are applied" % (what, show(b, 5)))
        same(b, src, what)
        k = mk("k", l.L)
        if l.L.op == "Lp":
            decided(i is k, "%s: number %s is applied" % (what, show(i, 4)))
        if i is not k:
            decided(not [u for u in subterms(i) if u.op == "mu"], "%s: number %s is applied" % (what, show(i, 4)))
            raise Violated("%s: they are not applied in order but number %s in turn %s" % (what, show(i, 5), show(k, 3)))
        s = l.L.args[0]
        if l.L.op == "L":
            if s.op == "range" or (s.op == "over" and s is not mk("over", src)):
                raise Violated("%s: only %s are applied" % (what, show(s, 5)))
            decided(s is mk("over", src), "%s: %s" % (what, show(s, 4)))

    def no_other_end(l, call, what):
        """the loop ends early only for an error of the call"""
        e = isv(call, RESULT, "Err")
        for b in l.brk:
            x = AND(b, NOT(as_bool(e)))
            if x is FALSE:
                continue
            if l.L.op == "Lp":
                x = AND(x, pos(sub(length(st["cf"]), mk("k", l.L))))
                if x is FALSE:
                    continue
            raise Violated("%s: the loop over them ends if %s" % (what, show(x, 5)))

    def errs(call, what):
        """the error is the result"""
        e = isv(call, RESULT, "Err")
        ret = st["ret"]
        hit = 0
        for a in atoms(ret):
            if a.op == "exists" and call in subterms(a):
                hit += 1
                bad = assume(ret, a, True)
            elif a.op == "is" and a.args[0] is call:
                hit += 1
                bad = assume(ret, a, a.args[2] == "Err")
            else:
                continue
            good = assume(ret, a, a.op == "is" and a.args[2] != "Err")
            for x in live(bad):
                if x.op == "adt" and x.args[1] == "Ok" and x in live(bad):
                    raise Violated("an error of %s is not returned" % what)
        if not hit:
            raise Violated("an error of %s is not returned" % what)

    def char_filters():
        r = run()
        ls = [l for l in r.loops if any(calls(l.steps[m], APPLY_C) for m in l.steps)]
        main = [l for l in ls if any(u.args[2] in l.steps for m in l.steps for u in calls(l.steps[m], APPLY_C))]
        if not main:
            if not ls and not any(calls(r.ret, APPLY_C)):
                raise Violated("no character filter is applied")
            if ls and not main:
                a = [u for l in ls for m in l.steps for u in calls(l.steps[m], APPLY_C)][0]
                if not unresolved_other(a.args[2]):
                    raise Violated("each character filter gets %s, not the text the filter before returned" % show(a.args[2], 4))
            raise Undecided("the loop over the character filters is not known")
        decided(len(main) == 1, "the loop over the character filters is not known")
        l = main[0]
        cs = {u for m in l.steps for u in calls(l.steps[m], APPLY_C)}
        decided(len(cs) == 1, "several filters are applied in one turn")
        a = cs.pop()
        T = a.args[2]
        st.update(l=l, a=a, T=T)
        same(l.inits[T], st["text"], "text the first character filter gets")
        in_order(l, st["cf"], a.args[1], "character filters")
        ok = mk("f", a, "Ok", "0")
        for x in live(l.steps[T]):
            if x is T:
                g = [g for y, _, g in joint(l.steps[T], TRUE) if y is T]
                decided(not any(a_.op == "eq" for q in g for a_ in atoms(q)), "the text is kept under %s" % show(mk("tup", *g), 5))
                raise Violated("the text a character filter returns is not used if %s" % show(mk("tup", *g), 5))
            same(subst(x, {T: mk("par", "text before")}), subst(field(ok, "0"), {T: mk("par", "text before")}), "text the next character filter gets")
        no_other_end(l, a, "character filters")
        errs(a, "a character filter")
        return "in order, each on the text of the one before"

    def unresolved_other(t):
        return any(u.op in ("mu", "fin") for u in subterms(t))

    def tokenize():
        r = run()
        ts = set(calls(st["ret"], TOK)) | {u for l in r.loops for m in l.inits for u in calls(l.inits[m], TOK)}
        if not ts:
            raise Violated("the text is not tokenized")
        decided(len(ts) == 1, "the text is tokenized more than once")
        t = ts.pop()
        st["tcall"] = t
        same(t.args[1], st["tk"], "tokenizer used")
        want = mk("fin", st["T"])
        if t.args[2] is not want:
            if t.args[2] is st["text"]:
                raise Violated("the original text is tokenized, not the filtered one")
            decided(False, "text tokenized is %s" % show(t.args[2], 4))
        errs(t, "the tokenizer")
        return "the filtered text"

    def tokens():
        r = run()
        res = mk("f", st["tcall"], "Ok", "0")
        main = [l for l in r.loops if any(mutcalls(l.steps[m], APPLY_T) for m in l.steps)]
        if not main:
            raise Violated("no token filter is applied")
        decided(len(main) == 1, "the loop over the token filters is not known")
        l = main[0]
        ms = [m for m in l.steps if mutcalls(l.steps[m], APPLY_T)]
        decided(len(ms) == 1, "what the token filters change is not known")
        m = ms[0]
        st.update(tl=l, tm=m)
        x = l.inits[m]
        decided(x.op == "coll", "the tokens are %s" % show(x, 4))
        L, tr = x.args
        src = L.args[0]
        if src.op == "over" and src.args[0].op in ("slice",):
            raise Violated("only %s of the tokens are returned" % show(src, 4))
        same(src, mk("over", res), "tokens made")
        tr2 = tr
        for a in atoms(tr):
            if a.op == "is" and calls(a, "Token::get_details"):
                tr2 = assume(tr2, a, a.args[2] == "Some")
        if tr2.op == "cond":
            raise Violated("a token is left out if %s" % show(mk("tup", *atoms(tr2)), 5))
        decided(tr2.op == "seq" and len(tr2.args) == 1, "a token becomes %s" % show(tr2, 4))
        v = tr2.args[0].args[0]
        decided(v.op == "adt", "a token is %s" % show(v, 4))
        tok = index(res, mk("k", L))
        for n, y in v.args[2]:
            if n == "details":
                z = mk("call", "Token::get_details", tok)
                want = mk("f", z, "Some", "0")
                if y is not want:
                    decided(y.op == "coll" and y.args[0].args[0] is mk("over", want), "details are %s" % show(y, 4))
                    same(y.args[1], mk("seq", mk("it", index(want, mk("k", y.args[0])))), "details of a token")
            else:
                ren = {st["tcall"]: mk("par", "result")}
                same(subst(y, ren), subst(field(tok, n), ren), "%s of a token" % n)
        return "field for field"

    def token_filters():
        l, m = st["tl"], st["tm"]
        ss = live(l.steps[m])
        us = mutcalls(l.steps[m], APPLY_T)
        decided(len(set(us)) == 1, "several token filters are applied in one turn")
        u = us[0]
        call = mk("call", APPLY_T, *u.args[2])
        for x in ss:
            if x is m:
                raise Violated("a token filter is skipped if %s" % show(mk("tup", *atoms(l.steps[m])), 5))
            decided(x is u, "a token filter leaves %s" % show(x, 4))
        decided(u.args[1] == 1 and u.args[2][1] is m, "the token filters get %s" % show(mk("tup", *u.args[2]), 4))
        in_order(l, st["tf"], u.args[2][0], "token filters")
        no_other_end(l, call, "token filters")
        errs(call, "a token filter")
        return "in order, on the same list"

    # ---- corrections
    def part(o, what):
        """(list, index, element term with the index left out) of an argument of correct_offset"""
        path = []
        t = o
        while t.op == "f":
            path.append((t.args[1], t.args[2]))
            t = t.args[0]
        decided(t.op == "idx", "%s: %s" % (what, show(o, 4)))
        base, j = t.args
        return base, j, path

    def filled(base, what):
        """(element, added if, order) of a list of corrections"""
        l = st["l"]
        if base.op == "coll":
            return elem(base, l.L, what)
        decided(base.op == "fin" and base.args[0] in l.steps, "%s: %s" % (what, show(base, 4)))
        m = base.args[0]
        decided(l.inits[m].op == "arr" and not l.inits[m].args or length(l.inits[m]) is INT(0), "%s starts as %s" % (what, show(l.inits[m], 3)))
        got = None
        added = FALSE
        for x, _, g in joint(l.steps[m], TRUE):
            if x.op in ("undef", "dead") or x is m:
                continue
            added = OR(added, g)
            if x.op == "mut" and str(x.args[0]) in ("Vec::insert", "VecDeque::push_front"):
                a = x.args[2]
                v = a[-1]
                decided(a[0] is m and (len(a) == 2 or a[1] is INT(0)), "%s: %s" % (what, show(x, 4)))
                new = (v, "front")
            elif x.op == "app" and x.args[0] is m:
                new = (x.args[1].args[1], "back")
            else:
                raise Undecided("%s becomes %s" % (what, show(x, 4)))
            decided(got in (None, new), "%s" % what)
            got = new
        if got is None:
            raise Violated("%s: nothing is ever recorded" % what)
        return got[0], added, got[1]

    def correct():
        r = run()
        l, a, T, tl, tm = (st[x] for x in ("l", "a", "T", "tl", "tm"))
        ok = mk("f", a, "Ok", "0")
        everything = [(q, x) for q in r.loops for x in list(q.steps.values())] + [(None, st["ret"])]
        cs = {}
        for q, x in everything:
            for u in calls(x, CORR):
                cs.setdefault(u, []).append(q)
        if not cs:
            raise Violated("no offset is mapped back")
        want = {"offsets": field(ok, "1"), "differences": field(ok, "2"), "text length": length(field(ok, "0"))}
        for u in cs:
            order = None
            parts = {}
            for n, x in zip(("offsets", "differences", "text length"), u.args[2:5]):
                base, j, path = part(x, n)
                v, added, where = filled(base, n)
                for vv, nm in reversed(path):
                    v = field(v, nm) if vv is None else mk("f", v, vv, nm)
                same(subst(uncast(v), {T: mk("par", "text before")}), subst(want[n], {T: mk("par", "text before")}), "%s given to correct_offset" % n)
                none = zero(length(field(ok, "1")))
                lost = AND(NOT(added), AND(NOT(none), as_bool(isv(a, RESULT, "Ok")) if isv(a, RESULT, "Ok").op != "cond" else isv(a, RESULT, "Ok")))
                lost = restrict(lost, NOT(as_bool(isv(a, RESULT, "Err"))))
                if lost is not FALSE:
                    lost = AND(lost, NOT(zero(length(field(ok, "2")))))
                if lost is not FALSE:
                    raise Violated("the %s a character filter reported are left out if %s" % (n, show(lost, 5)))
                parts[n] = (base, j, where, added)
            js = {p[1] for p in parts.values()}
            require(len({p[2] for p in parts.values()}) == 1, "the lists of corrections are filled in different orders")
            decided(len({p[3] for p in parts.values()}) == 1, "the lists of corrections are filled differently")
            if len(js) != 1:
                raise Violated("correct_offset gets the parts of different filters: %s" % ", ".join(sorted(show(j, 4) for j in js)))
            j = js.pop()
            where = parts["offsets"][2]
            bases = [p[0] for p in parts.values()]
            ks = [u for u in ([j] if j.op == "k" else [x for x, _ in lin_parts(j)[1]] if j.op == "lin" else []) if u.op == "k"]
            if not ks and not [u for u in subterms(j) if u.op in ("mu", "k")]:
                raise Violated("only the corrections of filter %s are applied" % show(j, 4))
            decided(len(ks) == 1, "the filters are mapped through in order %s" % show(j, 5))
            k = ks[0]
            LL = k.args[0]
            lens = [length(b) for b in bases]
            if j is k:
                direction = "front"
            elif any(j is sub(sub(n, INT(1)), k) for n in lens):
                direction = "back"
            else:
                if not unresolved_other(subst(j, {k: INT(0)})):
                    raise Violated("the corrections used in turn %s are those of number %s" % (show(k, 3), show(j, 5)))
                raise Undecided("the corrections used are number %s" % show(j, 5))
            require(direction == where, "the corrections are applied first filter first")
            s = LL.args[0]
            if LL.op == "L":
                if s.op == "over":
                    xs = [x for x in live(s.args[0])]
                    for x in xs:
                        if x.op == "slice":
                            raise Violated("only %s of the corrections are applied" % show(x, 4))
                        decided(x in bases or norm(x) in [norm(b) for b in bases], "corrections are applied over %s" % show(s, 4))
                elif s.op == "range":
                    decided(s.args[0] is INT(0), "corrections are applied over %s" % show(s, 4))
                    require(s.args[1] in lens, "corrections are applied over %s" % show(s, 4))
                st["lists"] = (LL, bases)
            for lq in r.loops:
                if lq.L is LL and LL.op == "L":
                    for b in lq.brk:
                        require(b is FALSE, "not all corrections are applied if %s" % show(b, 4))
        st["calls"] = cs
        return "with the parts of one filter, last filter first"

    def ends():
        r = run()
        tm = st["tm"]
        a, b = "byte_start", "byte_end"
        done = []

        def source(v, n, base):
            """v is field n of base corrected"""
            if v.op == "call" and v.args[0] == CORR:
                x = v.args[1]
                return corr_of(x, n, base)
            if v.op == "fin":
                m = v.args[0]
                for l in r.loops:
                    if m in l.steps:
                        s = l.steps[m]
                        if s.op == "call" and s.args[0] == CORR and s.args[1] is m:
                            return corr_of(l.inits[m], n, base)
                        if any(x is m for x in live(s)) and calls(s, CORR):
                            raise Violated("%s is not mapped back if %s" % (n, show(mk("tup", *atoms(s)), 5)))
            return None

        def corr_of(x, n, base):
            if x.op == "f" and x.args[2] == n:
                if x.args[0] is not base and not_same_token(x.args[0], base):
                    return None
                return True
            while x.op == "call" and x.args[0] == CORR:
                x = x.args[1]
            if x.op == "f" and x.args[2] in (a, b):
                raise Violated("%s becomes the corrected %s" % (n, x.args[2]))
            return None

        def not_same_token(p, q):
            return not (p.op == "idx" and q.op == "idx" and p.args[1] is q.args[1])
        for l in r.loops:
            for m in l.steps:
                for u in subterms(l.steps[m]):
                    if u.op == "upd" and any(calls(v, CORR) or (v.op == "fin" and v.args[0].op == "mu") for _, v in u.args[1]):
                        fs = {p[1]: v for p, v in u.args[1]}
                        if not ({a, b} & set(fs)):
                            continue
                        for n in (a, b):
                            if n not in fs:
                                raise Violated("%s of a token is not mapped back" % n)
                            ok = source(fs[n], n, u.args[0])
                            decided(ok, "%s becomes %s" % (n, show(fs[n], 5)))
                        extra = set(fs) - {a, b}
                        require(not extra, "%s of a token is changed" % ", ".join(sorted(extra)))
                        guard = [g for x, _, g in joint(l.steps[m], TRUE) if u not in subterms(x) and x.op not in ("undef", "dead")]
                        if guard:
                            raise Violated("the ends of a token are not mapped back if %s" % show(mk("tup", *guard), 5))
                        done.append((l, m, u))
        decided(done, "what is corrected is not known")
        # every token of the result
        t = okfield(st["ret"])
        seen = []
        todo = [x for x in live(t)]
        reached = False
        n = 0
        while todo and n < 40:
            n += 1
            x = todo.pop()
            m = x.args[0] if x.op == "fin" else x
            if m is tm:
                reached = True
                continue
            if x.op == "coll":
                src = x.args[0].args[0]
                decided(src.op == "over", "the tokens returned are %s" % show(x, 4))
                seen.append(x.args[0])
                todo += live(src.args[0])
                continue
            ls = [l for l in r.loops if m in l.steps]
            decided(len(ls) == 1, "the tokens returned are %s" % show(x, 4))
            l = ls[0]
            if l.L in seen:
                continue
            seen.append(l.L)
            todo += live(l.inits[m])
            for y, _, g in joint(l.steps[m], TRUE):
                if y is m:
                    none = [zero(length(b_)) for b_ in st["lists"][1]] if "lists" in st else []
                    if any(AND(g, NOT(z)) is FALSE for z in none):
                        continue
                    raise Violated("the ends of a token are not mapped back if %s" % show(g, 5))
                if y.op in ("fin", "mu") and (y.args[0] if y.op == "fin" else y) is not m:
                    todo.append(y)
        decided(reached, "the tokens returned are not those of the token filters")
        upd_loops = {l.L for l, _, _ in done}
        if not (upd_loops & set(seen)) and not any(u in subterms(t) for _, _, u in done):
            raise Violated("the tokens returned are those before their ends are mapped back")
        for l in r.loops:
            if l.L not in seen:
                continue
            if l.L.op == "L":
                s = l.L.args[0]
                if s.op == "over" and s.args[0].op == "slice":
                    raise Violated("only %s are mapped back" % show(s.args[0], 4))
                for b_ in l.brk:
                    require(b_ is FALSE, "not all tokens are mapped back: the loop ends if %s" % show(b_, 5))
            else:
                for b_ in l.brk:
                    g = b_
                    for a_ in atoms(b_):
                        if a_.op == "pos" and mk("k", l.L) in subterms(a_):
                            g = assume(g, a_, True)
                    require(g is FALSE, "not all tokens are mapped back: the loop ends if %s" % show(b_, 5))
        return "start and end of every token"

    if c.ob("character filters", char_filters):
        if c.ob("tokenizing", tokenize):
            if c.ob("tokens", tokens):
                c.ob("token filters", token_filters)
                if c.ob("corrections", correct):
                    c.ob("both ends of every token", ends)

    def correct_offset():
        k = [x for x in c.w().find("correct_offset", crate="lindera_filter") if "promoted" not in x]
        if len(k) != 1:
            raise Undecided("correct_offset is not known")
        r = c.analyse(k[0])
        o, O, D, n = [mk("par", x) for x in fn_params(c, k[0])]
        t = uncast(r.ret)
        some = NOT(zero(length(O)))
        same(restrict(t, zero(length(O))), o, "offset without corrections")
        t = restrict(t, some)
        bs = calls(t, "slice::binary_search")
        decided(bs and len(set(bs)) == 1, "the correction is found by %s" % sorted(vocab(t)))
        s = bs[0]
        same(s.args[1], O, "offsets searched")
        same(s.args[2], o, "offset searched for")
        hit = isv(s, RESULT, "Ok")
        i = mk("f", s, "Ok", "0")
        e = mk("f", s, "Err", "0")
        same(assume_all(t, hit), add(o, index(D, i)), "an offset listed")
        miss = assume_all(t, NOT(hit))
        miss = restrict(miss, pos(n))
        same(restrict(miss, NOT(zero(e))), add(o, index(D, sub(e, INT(1)))), "an offset behind one listed")
        same(restrict(subst(restrict(miss, zero(e)), {e: INT(0)}), pos(n)), o, "an offset before all listed")
        return "adds the difference of the last offset not behind it"
    c.ob("correct_offset", correct_offset)

    def clones():
        k = method(c, "Analyzer", "clone")
        r = c.analyse(k, None, opaque=tuple(x for x in c.w().find("box_clone") if "promoted" not in x))
        v = r.ret
        decided(v.op == "adt", "a clone is %s" % show(v, 4))
        run()
        for n, x in v.args[2]:
            src = field(SELF, n)
            if x is src:
                continue
            if x.op == "arr" and not x.args:
                raise Violated("%s of a clone are empty" % n)
            if x.op == "fin":
                if inserted_in_front(r, x.args[0]):
                    raise Violated("%s of a clone are in the opposite order" % n)
                for l in r.loops:
                    for y, _, g in joint(l.steps.get(x.args[0], UNIT), TRUE):
                        if y is x.args[0]:
                            raise Violated("%s of a clone: one is left out if %s" % (n, show(g, 5)))
            decided(x.op == "coll", "%s of a clone: %s" % (n, show(x, 4)))
            L, tr = x.args
            if L.args[0] is not mk("over", src):
                same(L.args[0], mk("over", src), "%s of a clone" % n)
            require(tr.op == "seq" and len(tr.args) == 1, "%s of a clone: one is left out if %s" % (n, show(tr, 4)))
            y = tr.args[0].args[0]
            if y.op == "call" and y.args[0].endswith("::box_clone"):
                y = y.args[1]
            same(y, index(src, mk("k", L)), "%s of a clone" % n)
        return "the same filters in the same order"
    c.ob("clone of an analyzer", clones)

    def fields():
        n = 0
        for k, f in sorted(c.w().fns.items()):
            if not k.endswith("::clone") or "promoted" in k:
                continue
            s = (f.d.get("impl_self") or "").split("<")[0]
            if not (s.endswith("Filter") or s.endswith("Tokenizer") or "Dict" in s or s.endswith("FilterConfig") or s.endswith("ConnectionCostMatrix") or s.endswith("Mode") or s.endswith("Penalty")):
                continue
            if s.endswith("::Analyzer") or s.startswith("Box") or "Builder" in s:
                continue
            r = c.analyse(k)
            n += 1
            whole(r.ret, SELF, s)
        c.counts["clone implementations"] = n
        return "%d types" % n

    def whole(v, me, s):
        if v is me:
            return
        for x in live(v):
            if x is me:
                continue
            decided(x.op in ("adt", "tup"), "a clone of %s is %s" % (s, show(x, 4)))
            if x.op == "adt":
                for n, y in x.args[2]:
                    want = mk("f", me, x.args[1], n) if enum_variant(x) else field(me, n)
                    if y is not want:
                        same(y, want, "%s of a clone of %s" % (n, s))

    def enum_variant(x):
        return len(VARIANTS.get(x.args[0], ())) > 1 and x.args[1] is not None
    c.ob("clones", fields)
