"""C18. The token list every token filter leaves behind is derived as an expression over the list it
was given.  The rule: each turn contributes the token of that turn, in order, either unchanged or
with another text only (a filter that rewrites), or either unchanged or not at all (a filter that
selects); no filter does both.  For the filter that joins tokens, every case of a turn is looked at
as a change of the list "finished tokens, then the pending one": the token is added, or the pending
token becomes one with its own start, position and word id, the new token's end, both texts one
after the other and the sum of the position lengths; after the last turn the pending token is
added.  Every error-free path leaves such a list, and an error is never caused by a rewrite."""
from .common import *
from .c26 import joint
from .c27 import method

SELECTING = {"JapaneseKeepTagsTokenFilter", "JapaneseStopTagsTokenFilter", "KoreanKeepTagsTokenFilter", "KoreanStopTagsTokenFilter",
             "KeepWordsTokenFilter", "StopWordsTokenFilter", "LengthTokenFilter"}
JOINING = {"JapaneseCompoundWordTokenFilter"}


class Rest(Undecided):
    """handling ends at some token"""


def filters(c, trait="TokenFilter"):
    """(type, apply key) of every implementation"""
    w = c.w()
    out = {}
    for i in w.impls:
        if i["crate"] != "lindera_filter" or i.get("trait", "").split("::")[-1] != trait:
            continue
        for it in i["items"]:
            if it["name"] == "apply":
                out[i["self"].split("<")[0].split("::")[-1]] = it["key"]
    return out


def tokens_of(c, key):
    return mk("par", fn_params(c, key)[1])


def each(t, toks, what):
    """(token of the turn, what it contributes: diagram of seq() or seq(it(x)))"""
    if t is toks:
        return None, None
    if t.op == "cond":
        a = t.args[0]
        if a.op == "exists" and any(x.op == "mu" for x in leaves(t.args[1])) and unresolved(a.args[1]) is None and \
                index(toks, mk("k", a.args[0])) in set(subterms(a.args[1])):
            raise Rest("%s: tokens after one for which %s are left out of account" % (what, show(a.args[1], 5)))
        raise Undecided("%s: the token list depends on %s" % (what, show(t.args[0], 4)))
    if t.op == "mapd":
        b, L, v = t.args
        k = mk("k", L)
        if b is toks and L.op == "L" and L.args[0] is mk("range", INT(0), length(toks)):
            return index(toks, k), maptree(v, lambda x: mk("seq", mk("it", x)))
    if t.op == "call" and t.args[0] in ("reversed", "sorted", "sorted_desc", "sorted_by"):
        raise Violated("%s: tokens are %s" % (what, t.args[0].replace("_", " ")))
    if t.op == "slice":
        if not unresolved_in(t.args[1]) and not unresolved_in(t.args[2]):
            raise Violated("%s: only tokens %s to %s are left" % (what, show(t.args[1], 4), show(t.args[2], 4)))
    decided(t.op == "coll", "%s: tokens become %s" % (what, show(t, 4)))
    L, body = t.args
    src = L.args[0] if L.op == "L" else None
    k = mk("k", L)
    ok = src is not None and (src is mk("over", toks) or src is mk("range", INT(0), length(toks)))
    if not ok:
        if src is not None and toks in subterms(src) and not unresolved_in(src):
            raise Violated("%s: only %s are handled" % (what, show(src, 5)))
        raise Undecided("%s: tokens become %s" % (what, show(t, 4)))
    return index(toks, k), body


def unresolved_in(t):
    return [u for u in subterms(t) if u.op in ("mu", "fin", "mut", "undef", "dead", "call")]


def changed(x, tok):
    """fields of tok that x has other values for, or None if x is not made from tok"""
    if x is tok:
        return {}
    if x.op == "upd" and x.args[0] is tok:
        out = {}
        for (_, n), v in x.args[1]:
            out[n] = v
        return {n: v for n, v in out.items() if v is not field(tok, n)}
    if x.op == "adt":
        vals = dict(x.args[2])
        return {n: v for n, v in vals.items() if v is not field(tok, n)}
    return None


def live(t):
    return [x for x in leaves(t) if x.op not in ("undef", "dead")]


def pushed(t, base):
    """elements appended to base"""
    out = []
    while t is not base:
        if t.op != "app" or t.args[1].op != "item":
            return None
        it = t.args[1].args
        if it[0] not in ("push", "push_back"):
            return None
        out.append(it[1])
        t = t.args[0]
    return out[::-1]


def joiner(c, key):
    """(result, loop, finished list, pending token) of a filter that joins"""
    r = c.analyse(key)
    toks = tokens_of(c, key)
    fin_ = r.final(toks.args[0])
    for l in {l.L: l for l in r.loops}.values():
        if l.L.op != "L" or l.L.args[0] is not mk("over", toks):
            continue
        N = [m for m in l.steps if l.inits[m].op == "arr" and not l.inits[m].args]
        P = [m for m in l.steps if l.inits[m].op == "adt" and l.inits[m].args[1] == "None"]
        if len(N) == 1 and len(P) == 1:
            return r, l, N[0], P[0], toks, fin_
    raise Undecided("joining is not done with a finished list and a pending token")


def transitions(l, N, P):
    """(list elements before, after, condition, whether a token was pending) of one turn"""
    for had in (False, True):
        out = []
        for x, y, g in joint(l.steps[N], l.steps[P]):
            if x.op in ("undef", "dead") or y.op in ("undef", "dead"):
                continue
            st_ = isv(P, OPTION, "Some")
            x, y, g = (assume_all(u, as_bool(st_) if had else NOT(as_bool(st_))) for u in (x, y, g))
            if g is FALSE or x.op == "cond" or y.op == "cond":
                continue
            ps = pushed(x, N)
            decided(ps is not None, "finished tokens become %s" % show(x, 5))
            if y is P:
                nxt = [mk("f", P, "Some", "0")] if had else []
            else:
                is_ = as_bool(isv(y, OPTION, "Some")) if y.op != "upd" else bconst(had)
                decided(is_ in (TRUE, FALSE), "the pending token becomes %s" % show(y, 5))
                nxt = [field(y, "0", "Some")] if is_ is TRUE else []
            out.append((ps, nxt, g))
        yield had, out


def check(c):
    c.w()
    fs = filters(c)
    c.floor("token filters", len(fs), 12)
    c.counts["token filters"] = len(fs)
    opq = ()

    for name, key in sorted(fs.items()):
        if name in JOINING:
            continue

        def go(name=name, key=key):
            r = c.analyse(key, None, opaque=opq)
            toks = tokens_of(c, key)
            t = r.final(toks.args[0])
            decided(t is not None, "%s: final token list is not known" % name)
            ok = as_bool(isv(r.ret, RESULT, "Ok"))
            t = assume_all(t, ok) if ok is not TRUE else t
            for t1 in live(t) if t.op == "cond" else [t]:
                tok, body = each(t1, toks, name)
                if tok is None:
                    continue
                drops, edits = False, False
                for s in live(body):
                    if s.op != "seq":
                        raise Undecided("a turn contributes %s" % show(s, 4))
                    if not s.args:
                        drops = True
                        continue
                    if len(s.args) != 1:
                        raise Violated("a turn contributes %d tokens: %s" % (len(s.args), show(s, 5)))
                    x = s.args[0].args[0]
                    for y in live(x):
                        ch = changed(y, tok)
                        if ch is None:
                            if y.op == "idx" and y.args[0] is toks:
                                raise Violated("turn %s contributes token %s" % (show(mk("k", tok.args[1].args[0]), 3), show(y.args[1], 4)))
                            raise Undecided("a turn contributes %s" % show(y, 5))
                        other = set(ch) - {"text"}
                        if other:
                            n = sorted(other)[0]
                            raise Violated("the %s of a token becomes %s" % (n, show(ch[n], 5)))
                        if ch:
                            edits = True
                if name in SELECTING:
                    require(not edits, "%s selects tokens, but changes the text of some" % name)
                else:
                    require(not drops, "%s does not select tokens, but removes some" % name)
        c.ob("%s: tokens left behind" % name, go)

        def errs(name=name, key=key):
            r = c.analyse(key, None, opaque=opq)
            bad = [x for x in live(r.ret) if x.op == "adt" and x.args[1] == "Err"]
            if bad and name in SELECTING:
                raise Violated("%s fails with %s" % (name, show(bad[0], 5)))
        c.ob("%s: no error" % name, errs)

    for name, key in sorted(fs.items()):
        if name not in JOINING:
            continue
        st = {}

        def turns(key=key, st=st):
            r, l, N, P, toks, fin_ = joiner(c, key)
            st.update(r=r, l=l, N=N, P=P, fin=fin_)
            tok = index(toks, mk("k", l.L))
            p0 = mk("f", P, "Some", "0")
            for had, cases_ in transitions(l, N, P):
                before = [p0] if had else []
                n = 0
                for ps, nxt, g in cases_:
                    n += 1
                    after = ps + nxt
                    where = " if %s" % show(g, 5)
                    if after == before + [tok]:
                        continue
                    if had and len(after) == 1:
                        joined(after[0], p0, tok)
                        continue
                    if len(after) < len(before) + 1:
                        raise Violated("a token is lost%s" % where)
                    if sorted(map(id, after)) == sorted(map(id, before + [tok])):
                        raise Violated("tokens are reordered%s" % where)
                    for x, y in zip(after, before + [tok]):
                        ch = changed(x, y)
                        if ch:
                            q = sorted(ch)[0]
                            raise Violated("the %s of a token becomes %s%s" % (q, show(ch[q], 4), where))
                    raise Violated("a turn makes %s of %s%s" % (show(mk("tup", *after), 5), show(mk("tup", *(before + [tok])), 5), where))
                decided(n, "no case of a turn is known")

        def joined(x, p0, tok):
            ch = changed(x, p0)
            if ch is None:
                ch2 = changed(x, tok)
                if ch2 is not None:
                    raise Violated("the joined token is the later one with other %s" % ", ".join(sorted(ch2)))
                raise Undecided("the joined token is %s" % show(x, 5))
            for n, v in ch.items():
                if n in ("byte_end", "text", "position_length", "details"):
                    continue
                raise Violated("the %s of the joined token is %s" % (n, show(v, 5)))
            m = {p0: mk("par", "pending")}
            for n, want, what in (("byte_end", field(tok, "byte_end"), "end"),
                                  ("position_length", add(field(p0, "position_length"), field(tok, "position_length")), "position length")):
                same(subst(ch.get(n, field(p0, n)), m), subst(want, m), what + " of the joined token", extra_vocab=("len",))
            txt = ch.get("text", field(p0, "text"))
            parts = concat(txt)
            want = [field(p0, "text"), field(tok, "text")]
            if parts != want:
                decided(all(q in want for q in parts), "text of the joined token: %s" % show(txt, 5))
                raise Violated("text of the joined token: %s" % show(txt, 5))

        def concat(t):
            if t.op == "app":
                it = t.args[1]
                decided(it.op == "item" and it.args[0] in ("push_str", "push"), "text of the joined token: %s" % show(t, 5))
                return concat(t.args[0]) + concat(it.args[1])
            if t is STR(""):
                return []
            return [t]
        c.ob("%s: each turn" % name, turns)

        def end(st=st):
            decided("l" in st, "the loop over the tokens is not known")
            N, P, l = st["N"], st["P"], st["l"]
            fN, fP = mk("fin", N), mk("fin", P)
            t = st["fin"]
            some = as_bool(isv(fP, OPTION, "Some"))
            a, b = assume_all(t, some), assume_all(t, NOT(some))
            if a is fN or (b is fN and a is b):
                raise Violated("the pending token is lost at the end")
            pa = pushed(a, fN)
            decided(pa is not None and a.op != "cond", "tokens become %s" % show(a, 5))
            require(pa == [mk("f", fP, "Some", "0")], "after the last turn, %s is added" % show(mk("tup", *pa), 5))
            require(b is fN, "without a pending token, tokens become %s" % show(b, 5))
            for e in l.brk:
                raise Violated("the loop over the tokens ends early if %s" % show(e, 5))
        c.ob("%s: after the last turn" % name, end)
