"""C01. Tokenizer::tokenize is reduced to the list of tokens it returns as a function of the text
and of the offsets (start, word id) the lattice gives for each sentence.  The rule: the sentences
are a partition of the text without gaps; for each of them there is one token per offset, in order;
its text is the part of the sentence from its offset to the next one (the end of the sentence for
the last), its byte start and end are those two positions plus the length of all sentences before,
its position is its number plus the number of tokens of the sentences before, and its word id is
the one of its offset.  The lattice is given this sentence and the tokenizer's own dictionary, user
dictionary, definitions, costs and mode.  That offsets start at 0 and ascend follows from the rules
of C20 and C21 (candidates are registered at their own start and end; predecessors end where
their successor starts)."""
from .lattice import *
from .c20 import boundary_ids

PARTITION = ("str::split_inclusive",)
ASSUMES = ["the offsets of a sentence are those C20 and C21 describe: the first is 0 and each is the end of the word before"]


def offset_fields(c):
    """names of the parts of an offset that hold start and word id"""
    r = c.analyse(method(c, "Lattice", "tokens_offset"))
    for l in r.loops:
        for m, t in l.steps.items():
            for lf in leaves(t):
                if lf.op == "app" and lf.args[1].args[0] == "push":
                    it = lf.args[1].args[1]
                    ps = list(enumerate(it.args)) if it.op == "tup" else list(it.args[2]) if it.op == "adt" else []
                    a = [str(n) for n, x in ps if uncast(x).op == "f" and uncast(x).args[2] == "start_index"]
                    b = [str(n) for n, x in ps if x.op == "f" and x.args[2] == "word_id"]
                    if len(a) == 1 and len(b) == 1:
                        return a[0], b[0]
    raise Undecided("parts of an offset are not known")


def accumulated(r, t, L):
    """t with running totals of the loop L written as sums over the iterations before"""
    for _ in range(4):
        m = {}
        for u in subterms(t):
            if u.op == "mu" and u.args[0] is L:
                for l in r.loops:
                    if u in l.steps:
                        s = l.steps[u]
                        d = maptree(s, lambda x: sub(x, u))
                        if u not in subterms(d):
                            m[u] = add(l.inits[u], psum(L, d, mk("k", L)))
        if not m:
            return t
        t = subst(t, m)
    return t


def check(c):
    c.w()
    st = {}

    def tokens():
        key = method(c, "Tokenizer", "tokenize")
        lat = [method(c, "Lattice", n) for n in ("set_text", "calculate_path_costs", "tokens_offset")]
        r = c.analyse(key, opaque=tuple(lat))
        text = mk("par", fn_params(c, key)[1])
        some = NOT(zero(length(text)))
        v = restrict(okfield(r.ret), some)
        if v.op == "arr" and not v.args:
            raise Violated("no tokens are returned")
        decided(v.op == "coll", "the tokens are %s" % show(v, 5))
        L = v.args[0]
        body = restrict(assume_all(v.args[1], some), some)
        st.update(r=r, text=text, L=L, some=some)
        return r, text, L, body

    def offsets_of(body):
        for u in subterms(body):
            if u.op == "spl" and u.args[0].op == "coll":
                src = u.args[0].args[0].args[0]
                while src.op == "over" and src.args[0].op == "slice":
                    src = mk("over", src.args[0].args[0])
                if src.op == "over":
                    return u.args[0], src.args[0]
        raise Undecided("tokens of a sentence are %s" % show(body, 6))

    def sentences():
        r, text, L, body = tokens()
        src = L.args[0]
        decided(src.op == "over", "sentences are %s" % show(src, 5))
        s = src.args[0]
        if s.op == "slice" or s.op == "cond":
            raise Violated("only the part %s of the text is tokenized" % show(s, 6))
        decided(s.op == "call", "sentences are %s" % show(s, 5))
        require(s.args[0] not in ("str::split", "str::split_terminator", "str::lines", "str::split_whitespace", "str::rsplit", "str::splitn", "str::split_ascii_whitespace"),
                "the sentences are %s: the separators belong to none of them" % show(s, 5))
        decided(s.args[0] in PARTITION, "sentences are %s" % show(s, 5))
        same(s.args[1], text, "text split into sentences")
        st["sent"] = index(s, mk("k", L))
        inner, O = offsets_of(body)
        st["O"], st["inner"] = O, inner
        none = zero(length(O))
        b = restrict(assume_all(body, NOT(none)), NOT(none))
        if b.op == "cond":
            raise Violated("a sentence is skipped or treated differently if %s" % show(mk("tup", *atoms(b)), 6))
        decided(b.op == "seq", "tokens of a sentence: %s" % show(b, 5))
        require(len(b.args) == 1, "a sentence gives %d groups of tokens" % len(b.args))
        st["b"] = b
        lp = [l for l in r.loops if l.L is L]
        for l in lp:
            real = [x for x in l.brk if x is not FALSE]
            require(not real, "the loop over sentences ends early if %s" % (real and show(real[0], 5)))
        return "every sentence of %s" % show(s, 4)

    def token():
        r, L, O, inner, some, sent = st["r"], st["L"], st["O"], st["inner"], st["some"], st["sent"]
        li, tr = inner.args
        require(norm(li.args[0]) is norm(mk("over", O)), "tokens are made of %s of the offsets" % show(li.args[0], 5))
        require(tr.op == "seq", "an offset gives no token if %s" % show(tr, 5))
        require(len(tr.args) == 1 and tr.args[0].op == "it", "an offset gives %d tokens" % len(tr.args))
        t = tr.args[0].args[0]
        decided(t.op == "adt" and t.args[0].endswith("Token"), "a token is %s" % show(t, 4))
        a, b = offset_fields(c)
        k, kL = mk("k", li), mk("k", L)
        start = field(index(O, k), a)
        end = ite(zero(sub(sub(length(O), INT(1)), k)), length(sent), field(index(O, add(k, INT(1))), a))
        before = psum(L, length(sent), kL)
        count = psum(L, length(O), kL)
        O1 = mk("par", "offsets")
        nm = {O: O1}

        def eq_(x, y, what):
            x = accumulated(r, x, L)
            x = restrict(assume_all(x, some), some)
            same(subst(x, nm), subst(y, nm), what, extra_vocab=vocab(sent))
        eq_(field(t, "text"), slice_(sent, start, end), "text of a token")
        eq_(field(t, "byte_start"), add(start, before), "byte start of a token")
        eq_(field(t, "byte_end"), add(end, before), "byte end of a token")
        eq_(field(t, "position"), add(k, count), "position of a token")
        eq_(field(t, "word_id"), field(index(O, k), b), "word id of a token")
        eq_(field(t, "position_length"), INT(1), "position length of a token")
        return show(t, 4)

    def inputs():
        r, O, sent = st["r"], st["O"], st["sent"]
        w = c.w()
        dic = field(SELF, "dictionary")
        roles = {"set_text": {"Option<": ("user", None), "&str": ("text", sent), "mode::Mode": ("mode", field(SELF, "mode")),
                              "CharacterDefinitions": ("definitions", field(dic, "char_definitions")),
                              "UnknownDictionary": ("unknown", field(dic, "unknown_dictionary")),
                              "PrefixDict": ("dictionary", field(dic, "dict"))},
                 "calculate_path_costs": {"ConnectionCostMatrix": ("costs", field(dic, "cost_matrix")), "mode::Mode": ("mode", field(SELF, "mode"))}}
        decided(O.op == "call" and O.args[0].endswith("tokens_offset"), "offsets are %s" % show(O, 3))
        t, seen = O.args[1], []
        while t.op == "mut":
            name = str(t.args[0]).split("::")[-1]
            decided(name in roles, "the lattice is changed by %s" % t.args[0])
            seen.append(name)
            key = method(c, "Lattice", name)
            f = w.fns[key]
            args = flat(t.args[2])
            for i, x in enumerate(args):
                if i == 0:
                    continue
                ty = str(f.locals[i + 1].get("ty"))
                for pat, (what, want) in roles[name].items():
                    if pat in ty:
                        if what == "user":
                            u = field(SELF, "user_dictionary")
                            require(restrict(x, NOT(isv(u, OPTION, "Some"))).op == "adt" and restrict(x, NOT(isv(u, OPTION, "Some"))).args[1] == "None",
                                    "without a user dictionary the lattice gets %s" % show(x, 5))
                            x = restrict(x, isv(u, OPTION, "Some"))
                            require(isv(x, OPTION, "Some") is TRUE, "the lattice gets the user dictionary only if %s" % show(isv(x, OPTION, "Some"), 5))
                            same(field(x, "0", "Some"), field(field(u, "0", "Some"), "dict"), "user dictionary the lattice is built with")
                        else:
                            same(x, want, "%s the %s is given" % (what, name))
                        break
            t = args[0]
        require(seen[::-1] == ["set_text", "calculate_path_costs"], "the offsets are read after %s" % ", ".join(seen[::-1]))
        return "own dictionary, user dictionary, definitions, costs and mode; the sentence itself"

    def origin():
        s = lattice(c)
        roles, n = registered(s)
        t = s.steps[roles["stop"]].inits[roles["stop"]]
        for lf in leaves(t):
            decided(lf.op == "updi", "candidates registered at first are %s" % show(lf, 5))
            same(uncast(lf.args[1]), INT(0), "position at which the start of the sentence is registered")
        return "the only candidate that ends without a word before it ends at 0"

    if c.ob("sentences", sentences):
        c.ob("tokens", token)
        c.ob("inputs", inputs)
    c.ob("first offset", origin)
