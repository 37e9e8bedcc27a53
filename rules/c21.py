"""C21. The construction of the lattice (Lattice::set_text) is reduced to the list of candidates
it adds, each with the loops that produce it, the condition under which it is added and the lists
its id is registered in.  The rule: a loop over every position of the text; at a position where a
candidate ends (or the sentence starts), and only there, one candidate per prefix match of the rest
of the text in the user dictionary (if present) and in the system dictionary, spanning exactly the
matched length; and one candidate per unknown word of each category of the first character, exactly
if unknown words may start here (always in decompose mode, else from the end of the unknown word
generated last) and the category is always invoked or nothing else matched, spanning the first
character or, for a grouping category, also the following characters of that category.  Every
candidate is registered under its own index at its own start and its own end."""
from .lattice import *

ASSUMES = ["positions fit 32 bits (texts below 4 GB)",
           "DoubleArray::common_prefix_search yields every key that is a prefix of its argument, with its value and length"]


def kanji_of(v):
    """the text a kanji-only flag is computed from"""
    if v.op == "cond" and v.args[0].op == "exists":
        L = v.args[0].args[0]
        src = L.args[0]
        if src.op == "over" and src.args[0].op == "call" and src.args[0].args[0] == "str::chars":
            return src.args[0].args[1]
    raise Undecided("kanji-only flag is %s" % show(v, 5))


def check(c):
    c.w()
    st = {}

    def S():
        return lattice(c)

    def plain(t):
        """t with the state at the start of an iteration named"""
        s = S()
        return subst(t, {m: mk("par", m.args[2].split(".")[-1]) for m in subterms(t) if m.op == "mu" and m.args[0] is s.L0})

    def equal(a, b, what):
        same(plain(a), plain(b), what, extra_vocab=set(S().r.opaque) | {"str::chars"})

    def positions():
        s = S()
        require(s.full, "candidates are looked for at %s only" % show(s.L0, 5))
        l = s.steps[s.e0]
        decided(l.cont is TRUE or True, "")
        real = [b for b in l.brk if b is not FALSE]
        require(not real, "the search for candidates ends early if %s" % (real and show(real[0], 5)))
        return "every byte position of the text"

    def boundaries():
        s = S()
        roles = st.get("roles") or registered(s)[0]
        init = s.steps[s.e0].inits[s.e0]
        decided(init.op == "arr" or init.op == "app", "candidate list starts as %s" % show(init, 4))
        its = list(init.args) if init.op == "arr" else None
        decided(its is not None, "candidate list starts as %s" % show(init, 4))
        require(len(its) == 2, "%d boundary candidates" % len(its))
        ids = {}
        for role, at in (("stop", INT(0)), ("start", length(s.p["text"]))):
            root = roles[role]
            v = s.steps[root].inits[root]
            for lf in leaves(v):
                decided(lf.op == "updi", "list of ids at the %s starts as %s" % (role, show(lf, 4)))
                same(lf.args[1], at, "position at which the sentence boundary is registered in the list of ids by %s" % role)
                x = lf.args[2]
                for y in leaves(x):
                    decided(y.op in ("app", "arr"), "boundary registered as %s" % show(y, 4))
                    i = y.args[1].args[1] if y.op == "app" else y.args[0]
                    n = field(i, "0")
                    decided(n.op == "int", "boundary id %s" % show(n, 3))
                    ids.setdefault(role, set()).add(n.args[0])
        decided(all(len(v) == 1 for v in ids.values()) and len(ids) == 2, "boundary ids %s" % ids)
        b, e = ids["stop"].pop(), ids["start"].pop()
        require(b != e and {b, e} == {0, 1}, "the sentence boundaries are registered under %d and %d" % (b, e))
        bos = its[b]
        same(field(bos, "path_cost"), INT(0), "cost of the start of the sentence")
        for i in (b, e):
            le = field(its[i], "left_edge")
            require(le.op == "adt" and le.args[1] == "None", "a sentence boundary starts with a predecessor")
        c.bos, c.eos = b, e
        return "start of sentence: id %d, ends at 0; end of sentence: id %d, starts at the end" % (b, e)

    def registration():
        roles, n = registered(S())
        st["roles"] = roles
        c.counts["candidate kinds registered"] = n
        return "%d kinds of candidate, each registered under its index at its start and its end" % n

    def reachable(s):
        root = (st.get("roles") or registered(s)[0])["stop"]
        return NOT(zero(length(index(root, s.k0))))

    def dictionary(role):
        def go():
            s = S()
            src = field(s.p["user"], "0", "Some") if role == "user" else s.p["dict"]
            rest = slice_(s.p["text"], s.k0, length(s.p["text"]))
            want = reachable(s)
            if role == "user":
                want = AND(want, isv(s.p["user"], OPTION, "Some"))
            found = []
            for x in s.cands:
                for u in subterms(mk("tup", field(x.edge, "word_entry"))):
                    if u.op == "call" and u.args[0].endswith("PrefixDict::prefix") and u.args[1] is src:
                        found.append((x, u))
                        break
            require(found, "no candidates are made of the matches in the %s dictionary" % role)
            decided(len(found) == 1, "matches of the %s dictionary are used in %d places" % (role, len(found)))
            x, call = found[0]
            same(call.args[2], rest, "text the %s dictionary is searched for prefixes of" % role)
            decided(len(x.loops) == 2 and x.loops[1].args[0].op == "over", "loops of a %s candidate: %s" % (role, [show(l, 3) for l in x.loops]))
            same(x.loops[1].args[0].args[0], call, "matches of the %s dictionary that become candidates" % role)
            el = index(call, mk("k", x.loops[1]))
            e = x.edge
            same(uncast(field(e, "start_index")), s.k0, "start of a %s candidate" % role)
            end = add(s.k0, field(el, "0"))
            same(uncast(field(e, "stop_index")), end, "end of a %s candidate" % role)
            same(field(e, "word_entry"), field(el, "1"), "entry of a %s candidate" % role)
            same(kanji_of(field(e, "kanji_only")), slice_(s.p["text"], s.k0, end), "text a %s candidate's kanji-only flag is computed from" % role)
            le = field(e, "left_edge")
            require(le.op == "adt" and le.args[1] == "None", "a new candidate has a predecessor")
            equal(x.guard, want, "condition under which matches of the %s dictionary become candidates" % role)
            return "one per match of prefix(rest of the text), if %s" % show(x.guard, 6)
        return go

    def prefix():
        r = c.analyse("PrefixDict::prefix", crate="lindera_core")
        colls = [u for u in subterms(r.ret) if u.op == "coll"]
        decided(unresolved(r.ret) is None, "prefix matches are %s" % show(r.ret, 5))
        decided(colls, "prefix matches are %s" % show(r.ret, 5))
        o = [u for u in colls if not any(v is not u and u in subterms(v) for v in colls)]
        decided(len(o) == 1, "prefix matches are %s" % show(r.ret, 5))
        o = o[0]
        s = mk("par", fn_params(c, r.key)[1])
        m = [u for u in subterms(o) if u.op == "call" and u.args[0] == "DoubleArray::common_prefix_search"]
        require(m, "prefixes are not searched in the trie")
        same(m[0].args[2], s, "text searched in the trie")
        src = o.args[0].args[0]
        require(src.op == "over" and src.args[0] is m[0], "matches used: %s" % show(src, 5))
        tr = o.args[1]
        n = field(index(m[0], mk("k", o.args[0])), "1")
        keep = maptree(tr, lambda x: bconst(x.op != "seq" or bool(x.args)))
        drops_nul(keep, slice_(s, INT(0), n), "a match in the trie")
        only_nul(keep, slice_(s, INT(0), n), "a match in the trie")
        tr = restrict(tr, keep)
        decided(len(tr.args) == 1 and tr.args[0].op == "spl" and tr.args[0].args[0].op == "coll", "entries of a match: %s" % show(tr, 5))
        inner = tr.args[0].args[0]
        require(inner.args[1].op == "seq", "an entry is dropped if %s" % show(inner.args[1], 5))
        it = inner.args[1].args[0].args[0]
        same(strip_cast(field(it, "0")), field(index(m[0], mk("k", o.args[0])), "1"), "length reported for a match")
        en = field(it, "1")
        decided(en.op == "adt" and en.args[0].endswith("WordEntry"), "entry of a match is %s" % show(en, 4))
        return "every match, every entry"

    # ------------------------------------------------------------ unknown words
    def unknown():
        s = S()
        text, k0 = s.p["text"], s.k0
        rest = slice_(text, k0, length(text))
        chars = mk("call", "str::chars", rest)
        nonempty = zero(length(chars))
        xs = [x for x in s.cands if any(u is s.p["ud"] for u in subterms(x.edge))]
        require(xs, "no unknown words become candidates")
        decided(len(xs) == 1, "unknown words are added in %d places" % len(xs))
        x = xs[0]
        e = x.edge
        cats = [u for l in x.loops for u in subterms(l.args[0]) if u.op == "call" and u.args[0].endswith("lookup_categories")]
        decided(len(x.loops) == 3 and cats, "loops of an unknown word candidate: %s" % [show(l, 4) for l in x.loops])
        cat_call = mk("call", cats[0].args[0], s.p["cd"], index(chars, INT(0)))
        for u in set(cats):
            same(u, cat_call, "character whose categories unknown words are taken from")
        Lc, Lw = x.loops[1], x.loops[2]
        if Lc.args[0].op == "range" and not (vocab(Lc.args[0]) - vocab(cat_call)) and unresolved(Lc.args[0]) is None:
            require(Lc.args[0].args[0] is INT(0) and Lc.args[0].args[1] is length(cat_call),
                    "unknown words are taken from %s of the categories" % show(Lc.args[0], 6))
        decided(Lc.args[0].op == "over", "categories used: %s" % show(Lc, 4))
        same(Lc.args[0].args[0], cat_call, "categories unknown words are taken from")
        ord_ = mk("k", Lc)
        cat = index(cat_call, ord_)
        # the words of the category
        rl = c.analyse("UnknownDictionary::lookup_word_ids", crate="lindera_core")
        pl = fn_params(c, rl.key)
        ids = subst(rl.ret, {SELF: s.p["ud"], mk("par", pl[1]): cat})
        same(Lw.args[0], mk("over", ids), "unknown words of a category")
        rw = c.analyse("UnknownDictionary::word_entry", crate="lindera_core")
        pw = fn_params(c, rw.key)
        same(uncast(field(e, "word_entry")), uncast(subst(rw.ret, {SELF: s.p["ud"], mk("par", pw[1]): index(ids, mk("k", Lw))})),
             "entry of an unknown word")
        same(uncast(field(e, "start_index")), k0, "start of an unknown word")
        # the definition of the category
        dl = [k for k in s.r.opaque if k.endswith("lookup_definition")]
        decided(dl, "definitions of categories are read in an unknown way")
        d = mk("call", dl[0], s.p["cd"], cat)
        invoke, group = as_bool(field(d, "invoke")), as_bool(field(d, "group"))
        u_ = field(s.p["user"], "0", "Some")
        pre = [k for k in s.r.opaque if k.endswith("PrefixDict::prefix")][0]
        found = OR(NOT(zero(length(mk("call", pre, s.p["dict"], rest)))),
                   AND(isv(s.p["user"], OPTION, "Some"), NOT(zero(length(mk("call", pre, u_, rest))))))
        # where unknown words may start
        ends = [u for u in subterms(x.guard) if u.op == "mu" and u.args[0] is s.L0 and u not in s.other]
        modes = [n for n in VARIANTS if n.endswith("lindera_core::mode::Mode")][0]
        g = restrict(assume_all(x.guard, NOT(nonempty)), NOT(nonempty))
        gd = variant(g, s.p["mode"], modes, "Decompose")
        gn = variant(g, s.p["mode"], modes, "Normal")
        base = AND(reachable(s), OR(invoke, NOT(found)))
        equal(gd, base, "condition for unknown words in decompose mode")
        require(ends, "in normal mode unknown words start inside the unknown word generated last")
        decided(len(ends) == 1, "unknown words depend on %s" % [show(u, 2) for u in ends])
        ue = ends[0]
        st["ue"] = ue
        may = OR(NOT(isv(ue, OPTION, "Some")), pos(add(sub(k0, field(ue, "0", "Some")), INT(1))))
        if not any(u.op == "is" for u in subterms(gn) if u.op == "is" and u.args[0] is ue):
            may = pos(add(sub(k0, ue), INT(1)))
            st["plain"] = True
        equal(gn, AND(base, may), "condition for unknown words in normal mode")
        st["unk"] = (x, d, cat_call, ord_, chars, group, cat, OR(invoke, NOT(found)), nonempty)
        return "per category of the first character: %s" % show(gd, 6)

    def extent():
        s = S()
        x, d, cat_call, ord_, chars, group, cat, gen, nonempty = st["unk"]
        k0 = s.k0
        stop = uncast(field(x.edge, "stop_index"))
        n = None
        ln = sub(stop, k0)
        word = None
        if ln.op == "len":
            word = ln.args[0]
            if word.op == "call" and word.args[0] == "concat":
                co = word.args[1]
                decided(co.op == "coll", "unknown word is %s" % show(word, 5))
                L, tr = co.args
                it = tr.args[0].args[0] if tr.op == "seq" and len(tr.args) == 1 and tr.args[0].op == "it" else None
                decided(it is not None, "unknown word is made of %s" % show(tr, 5))
                same(it, index(chars, mk("k", L)), "characters of an unknown word")
                n = loop_len(L)
        elif ln.op == "sum":
            L, t = ln.args
            decided(t.op == "call" and "len_utf8" in t.args[0], "length of an unknown word is the sum of %s" % show(t, 4))
            same(t.args[1], index(chars, mk("k", L)), "characters of an unknown word")
            n = loop_len(L)
        if n is None:
            if all(all(u.op == "k" or (u.op == "len" and u.args[0] is chars) for u, _ in lin_parts(l)[1]) for l in leaves(ln)):
                raise Violated("an unknown word spans %s bytes, which is not the length of whole characters" % show(ln, 5))
            raise Undecided("unknown word spans %s" % show(ln, 6))
        kt = kanji_of(field(x.edge, "kanji_only"))
        if word is not None and kt is not word:
            same(kt, slice_(s.p["text"], k0, add(k0, ln)), "text an unknown word's kanji-only flag is computed from")
        n = restrict(restrict(n, NOT(nonempty)), gen)
        n = assume_all(assume_all(n, NOT(nonempty)), gen)
        single = restrict(n, NOT(group))
        equal(single, INT(1), "characters of an unknown word of a category that is not grouping")
        many = restrict(n, group)
        at = [a for a in atoms(many) if a.op == "exists"]
        if not at:
            decided(unresolved(many) is None, "characters of a grouped unknown word: %s" % show(many, 6))
            raise Violated("a grouping category's unknown word has %s characters" % show(many, 6))
        decided(len(at) == 1, "characters of a grouped unknown word: %s" % show(many, 6))
        Lx, stopc = at[0].args
        src = Lx.args[0]
        decided(src.op == "over", "characters looked at: %s" % show(src, 5))
        el = src.args[0]
        off = None
        if el is chars:
            off = INT(0)
        elif el.op == "slice" and el.args[0] is chars and el.args[2] is length(chars):
            off = el.args[1]
        decided(off is not None and off.op == "int", "characters looked at: %s" % show(el, 5))
        require(off.args[0] in (0, 1), "an unknown word is extended without looking at the character after the first (from %s on)" % show(off, 2))
        kx = mk("k", Lx)
        ch = index(chars, add(kx, off))
        cc = mk("call", cat_call.args[0], s.p["cd"], ch)
        # a character ends the word unless it has the category at the same place
        other = OR(pos(add(sub(ord_, length(cc)), INT(1))), NOT(eq(index(cc, ord_), cat)))
        bad = restrict(as_bool(stopc), pos(sub(length(chars), add(kx, off))))
        other = OR(pos(add(sub(ord_, length(cc)), INT(1))), NOT(as_bool(eq(*[index(cc, ord_), cat]))))
        same(bad, other, "condition under which a character ends an unknown word")
        full = restrict(many, NOT(as_bool(at[0])) if at[0].op != "cond" else NOT(at[0]))
        part = restrict(many, mk("cond", at[0], TRUE, FALSE))
        same(full, length(chars), "characters of an unknown word that nothing ends")
        part = restrict(part, pos(sub(length(chars), kx)))
        same(part, add(kx, off), "characters of an unknown word that ends")
        return "one character, grouped: up to the first character without the category"

    def last():
        s = S()
        x, d, cat_call, ord_, chars, group, cat, gen, nonempty = st["unk"]
        ue = st["ue"]
        l0 = s.steps[ue]
        init, step = l0.inits[ue], l0.steps[ue]
        if not st.get("plain"):
            require(init.op == "adt" and init.args[1] == "None", "the end of the last unknown word starts as %s" % show(init, 3))
        else:
            same(init, INT(0), "the end of the last unknown word at the start")
        step = restrict(step, NOT(nonempty))
        stop = uncast(field(x.edge, "stop_index"))
        val = (lambda v: v) if st.get("plain") else (lambda v: mk("adt", OPTION, "Some", (("0", v),)))
        outer = restrict(x.guard, NOT(nonempty))
        seen = 0
        for lf, g in cases_of(step):
            if lf is ue:
                continue
            if lf.op == "fin":
                m = lf.args[0]
                l = s.steps.get(m)
                decided(l is not None and l.inits[m] is ue, "end of the last unknown word is %s" % show(lf, 3))
                st2 = restrict(l.steps[m], NOT(nonempty))
                for lf2, g2 in cases_of(st2):
                    if lf2 is m:
                        # kept: no unknown word generated here
                        clash = AND(AND(g2, gen), restrict(outer, gen))
                        require(AND(g2, gen) is FALSE, "the end of an unknown word is not remembered if %s" % show(AND(g2, gen), 5))
                        continue
                    seen += 1
                    v = field(lf2, "0", "Some") if not st.get("plain") else lf2
                    gg = AND(g2, gen)
                    w = uncast(v)
                    equal(assume_all(restrict(w, gg), gg), assume_all(restrict(stop, gg), gg), "end remembered for an unknown word")
            else:
                seen += 1
                v = field(lf, "0", "Some") if not st.get("plain") else lf
                decided(lf.op == "adt" or st.get("plain"), "end of the last unknown word becomes %s" % show(lf, 4))
                equal(uncast(v), assume_all(restrict(stop, g), g), "end remembered for an unknown word")
        decided(seen > 0, "end of the last unknown word never changes")
        return "the end of the unknown words of the last category generated"

    c.ob("positions", positions)
    ok = c.ob("registration", registration)
    if ok:
        c.ob("sentence boundaries", boundaries)
        c.ob("system dictionary", dictionary("system"))
        c.ob("user dictionary", dictionary("user"))
        if c.ob("unknown words", unknown):
            c.ob("extent of unknown words", extent)
            c.ob("end of the last unknown word", last)
    c.ob("prefix matches", prefix)
