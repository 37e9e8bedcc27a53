"""C26. The scanning loop of both mapping filters is reduced to what one iteration appends to the
result and by how much it moves the position, with the position p as a free value.  The rule: p
starts at 0 and the loop goes on until the rest of the text is empty; where keys match at p (no key
matches across NUL, which none contains) the value the table has for exactly the matched text
is appended and p moves behind it, for the last match the trie reports (they come in ascending
length, so it is the longest); otherwise the first character of the rest is appended and p moves by
its length.  The trie is built from all keys of that table, sorted, each as its own bytes."""
from .common import *
from .c27 import method

ASSUMES = ["yada: common_prefix_search reports the keys that are prefixes, shortest first"]
FILTERS = [("character filter", "MappingCharacterFilter"), ("token filter", "MappingTokenFilter")]
SEARCH = "DoubleArray::common_prefix_search"


def joint(a, b):
    """leaf pairs of two diagrams with the condition under which they occur"""
    out = {}

    def go(u, g):
        if g is FALSE:
            return
        if u.op != "cond":
            out[u] = OR(out.get(u, FALSE), g)
            return
        a = mk("cond", u.args[0], TRUE, FALSE)
        go(u.args[1], AND(g, a))
        go(u.args[2], AND(g, NOT(a)))
    go(maptree(a, lambda x: maptree(b, lambda y: mk("tup", x, y))), TRUE)
    return [(l.args[0], l.args[1], g) for l, g in out.items()]


def scan(c, adt_):
    """the scanning loop: (analysis, result, position, text)"""
    r = c.analyse(method(c, adt_, "apply"))
    for l in r.loops:
        srch = [u for m in l.steps for u in subterms(l.steps[m]) if u.op == "call" and u.args[0] == SEARCH]
        if srch and l.L.op == "Lp":
            return r, l, srch[0]
    if any(SEARCH in l for l in [vocab(r.ret)] + [vocab(s) for x in r.loops for s in x.steps.values()]):
        raise Undecided("the keys are not searched in a loop over positions")
    raise Violated("%s does not search the keys" % adt_)


def check(c):
    c.w()

    for what, name in FILTERS:
        st = {}

        def step(what=what, name=name, st=st):
            r, l, srch = scan(c, name)
            st.update(r=r, l=l)
            hay = strip(srch.args[2])
            decided(hay.op == "slice", "text searched: %s" % show(hay, 5))
            text, P, end = hay.args
            decided(P.op == "mu" and P in l.steps, "position searched: %s" % show(P, 5))
            require(end is length(text), "keys are searched in %s" % show(hay, 6))
            require(l.inits[P] is INT(0), "the scan starts at %s" % show(l.inits[P], 4))
            same(srch.args[1], field(SELF, trie(c, name)), "trie searched")
            R = [m for m in l.steps if l.inits[m] is STR("") or l.inits[m].op == "str"]
            if name.startswith("MappingCh"):
                v = okfield(r.ret)
                tops = {m for m in R for lf in leaves(field(v, "0")) if m in subterms(lf)}
            else:
                fin = r.final("tokens")
                tops = {m for m in R if m in subterms(fin)}
            decided(len(tops) == 1, "the result is %s" % show(mk("tup", *R), 4))
            R = tops.pop()
            require(l.inits[R] is STR(""), "the result starts as %s" % show(l.inits[R], 3))
            st.update(text=text, P=P, R=R)
            n = 0
            for x, p, g in joint(l.steps[R], l.steps[P]):
                if p.op in ("undef", "dead") or x.op in ("undef", "dead"):
                    continue
                d = sub(p, P)
                if x is R:
                    require(d is not INT(0), "a step neither moves nor appends if %s" % show(g, 5))
                    raise Violated("the text from the position on is skipped without being replaced if %s" % show(g, 5))
                decided(x.op == "app" and x.args[0] is R, "a step appends %s" % show(x, 5))
                v = x.args[1].args[1]
                rest = slice_(text, P, length(text))
                first = index(mk("call", "str::chars", rest), INT(0))
                if v is first or v.op == "slice":
                    n += 1
                    if v is first:
                        same(strip_cast(d), mk("call", "char::len_utf8", first), "distance moved after copying a character")
                    else:
                        same(v, slice_(text, P, add(P, d)), "text copied")
                        ch = mk("call", "char::len_utf8", first)
                        same(strip_cast(d), ch, "distance moved after copying a character")
                    m = matches(g, srch, text, P)
                    require(m is FALSE, "a character is copied although a key matches there, if %s" % show(g, 6))
                else:
                    n += 1
                    require(matches(g, srch, text, P) is not FALSE, "a replacement is appended where no key matches")
                    longest(d, srch, text, P, what)
                    nm = {P: mk("par", "position"), d: mk("par", "matched")}
                    same(subst(v, nm), subst(mk("call", "map_at", field(field(SELF, "config"), "mapping"), slice_(text, P, add(P, d))), nm), "replacement appended")
            decided(n >= 2, "the steps are not known")
            return "longest match replaced, else one character copied"

        def matches(g, srch, text, P):
            """TRUE/FALSE: whether under g some key matches; else None"""
            seqs = found(g, srch)
            for s in seqs:
                z = zero(length(s))
                if AND(g, NOT(z)) is FALSE:
                    return FALSE
                if AND(g, z) is FALSE:
                    return TRUE
            return None

        def found(g, srch):
            out = []
            for a in atoms(g):
                for u in subterms(a):
                    if u.op == "len" and srch in subterms(u.args[0]) and (u.args[0] is srch or u.args[0].op == "coll"):
                        out.append(u.args[0])
            return out

        def longest(d, srch, text, P, what):
            d = strip_cast(d)
            if not (d.op == "f" and d.args[0].op == "idx"):
                q = subst(d, {P: mk("par", "position")})
                odd = [n for n in vocab(q) if n not in (SEARCH, "map_at", "map_get", "char::len_utf8", "contains", "str::chars")]
                if not odd and unresolved(q) is None:
                    raise Violated("after a replacement the scan moves by %s, not by the length of the match" % show(q, 6))
            decided(d.op == "f" and d.args[2] == "1" and d.args[0].op == "idx", "distance moved after a replacement: %s" % show(d, 6))
            s, i = d.args[0].args
            require(i is sub(length(s), INT(1)), "the match used is number %s of those found: not the longest" % show(i, 5))
            if s is srch:
                raise Violated("a key is matched across a NUL character, which no key contains")
            decided(s.op == "coll" and s.args[0].args[0] is mk("over", srch), "matches used: %s" % show(s, 5))
            L, tr = s.args
            n = field(index(srch, mk("k", L)), "1")
            pre = slice_(text, P, add(P, n))
            keep = maptree(tr, lambda x: bconst(x.op != "seq" or bool(x.args)))
            drops_nul(keep, pre, "a match")
            only_nul(keep, pre, "a match")
            for x in leaves(tr):
                if x.op == "seq" and x.args:
                    require(x.args[0].args[0] is index(srch, mk("k", L)), "match used is %s" % show(x, 5))

        def goes_on(what=what, name=name, st=st):
            l, text, P = st["l"], st["text"], st["P"]
            rest = slice_(text, P, length(text))
            more = pos(sub(length(text), P))
            empty = zero(length(mk("call", "str::chars", rest)))
            for b in l.brk:
                b = AND(b, more)
                if b is FALSE:
                    continue
                b = AND(b, NOT(empty))
                for a in atoms(b):
                    # a key the trie reports is in the table it was built from
                    if a.op == "is" and a.args[0].op == "call" and a.args[0].args[0] == "map_get" and SEARCH in vocab(a):
                        b = assume(b, a, a.args[2] == "Some")
                if b is FALSE:
                    continue
                un = [u for u in vocab(b) if u not in KNOWN and u not in (SEARCH, "char::len_utf8")]
                decided(not un, "the loop ends if %s" % show(b, 6))
                raise Violated("the scan stops before the end of the text if %s" % show(b, 6))
            return "until the rest is empty"

        def used(what=what, name=name, st=st):
            r, R, text = st["r"], st["R"], st["text"]
            if name.startswith("MappingCh"):
                same(text, mk("par", fn_params(c, r.key)[1]), "text scanned")
                for lf in leaves(field(okfield(r.ret), "0")):
                    require(lf is R or lf is mk("fin", R), "the text returned is %s" % show(lf, 5))
                return "the result is returned"
            toks = mk("par", "tokens")
            fin = r.final("tokens")
            decided(fin.op == "coll", "the tokens are %s" % show(fin, 4))
            L, tr = fin.args
            same(L.args[0], mk("over", toks), "tokens rewritten")
            tok = index(toks, mk("k", L))
            same(text, field(tok, "text"), "text scanned")
            for lf in leaves(tr):
                require(lf.op == "seq" and len(lf.args) == 1, "a token is dropped or doubled")
                v = lf.args[0].args[0]
                t = field(v, "text")
                require(t is R or t is mk("fin", R), "the text of a token becomes %s if %s" % (show(t, 4), show(mk("tup", *atoms(tr)), 4)))
            return "the result becomes the text of the token"

        def built(what=what, name=name, st=st):
            r = c.analyse(method(c, name, "new"))
            v = okfield(r.ret)
            decided(v.op == "adt", "the filter is %s" % show(v, 4))
            cfg = mk("par", fn_params(c, r.key)[0])
            same(field(v, "config"), cfg, "settings kept")
            t = field(v, trie(c, name))
            decided(t.op == "call" and t.args[0] == "DoubleArray::new", "the trie is %s" % show(t, 4))
            b = [u for u in subterms(t) if u.op == "call" and u.args[0] == "DoubleArrayBuilder::build"]
            decided(len(b) == 1, "the trie is %s" % show(t, 5))
            ks = b[0].args[1]
            if ks.op == "cond":
                ks = restrict(ks, isv(r.ret, RESULT, "Ok"))
            decided(ks.op == "coll", "keys are %s" % show(ks, 6))
            L, tr = ks.args
            require(tr.op == "seq" and len(tr.args) == 1, "a key is left out if %s" % show(tr, 5))
            k = field(tr.args[0].args[0], "0")
            src = [u for u in subterms(k) if u.op == "call" and u.args[0] == "sorted"]
            if not src and k.op == "f" and any("HashMap" in str(f.get("ty")) for n, a in c.w().adts.items() if n.endswith("::" + name + "Config")
                                               for v_ in a["variants"] for f in v_["fields"] if f["name"] == "mapping"):
                raise Violated("the keys are not sorted, which the trie needs")
            decided(src, "keys are %s" % show(k, 6))
            same(k, index(src[0], mk("k", L)), "key of the trie")
            by = src[0].args[2]
            require(by.op != "lam" or by.args[0].op == "sym", "the keys are sorted by %s, the trie needs them sorted as bytes" % show(by, 4))
            keys = src[0].args[1]
            m = mk("call", "map_iter", field(cfg, "mapping"))
            if L.args[0] is not mk("over", m):
                same(L.args[0], mk("over", src[0]), "keys of the trie")
            decided(keys.op == "coll", "keys are %s" % show(keys, 5))
            same(keys.args[0].args[0], mk("over", m), "keys sorted")
            same(keys.args[1], mk("seq", mk("it", field(index(m, mk("k", keys.args[0])), "0"))), "keys sorted")
            return "all keys, sorted"

        ok = c.ob("%s: a step" % what, step)
        if ok:
            c.ob("%s: end of the scan" % what, goes_on)
            c.ob("%s: result" % what, used)
        c.ob("%s: trie" % what, built)


def strip(x):
    while x.op == "call" and x.args[0] in ("str::as_bytes", "str::bytes"):
        x = x.args[1]
    return x


def trie(c, name):
    """name of the field that holds the trie"""
    for n, a in c.w().adts.items():
        if n.endswith("::" + name):
            fs = [f for v in a["variants"] for f in v["fields"] if "DoubleArray" in str(f.get("ty"))]
            if len(fs) == 1:
                return fs[0]["name"]
    raise Undecided("the trie of %s is not a field" % name)
