"""C38. The iteration mark filter is reduced to what one character appends to the text and does to the
pending marks, and to what is written for a pending mark.  The rule: exactly the kanji mark, if kanji
are to be normalized, and the four kana marks, if kana are, are held back with their position; any
other character first writes the pending marks, forgets them, and is then copied; at the end the
pending marks are written too.  What is written for a mark at position p in a run of n marks that
begins at position f is the character at p - min(f, n), for the kanji mark as it is, for a kana mark
as its unvoiced or voiced form.  The voicing is evaluated as a decision diagram for every
character at which it can change and compared with the pairs of characters Unicode relates by
U+3099."""
import unicodedata
from .common import *
from .c18 import filters
from .c30 import pieces

ASSUMES = ["a BTreeMap is iterated in ascending order of its keys"]
KANJI, HIRA, HIRA_V, KATA, KATA_V = (ord(x) for x in "々ゝゞヽヾ")
MARKS = (KANJI, HIRA, HIRA_V, KATA, KATA_V)


def pairs(lo, hi):
    """unvoiced -> voiced between lo and hi; the vowel is not in use with these marks"""
    out = {}
    for u in range(lo, hi):
        v = unicodedata.normalize("NFC", chr(u) + "\u3099")
        if len(v) == 1 and ord(v) == u + 1:
            out[u] = ord(v)
    return out


HIRA_PAIRS, KATA_PAIRS = pairs(0x3041, 0x3097), pairs(0x30A1, 0x30F7)


def written(mark, ch):
    if mark in (HIRA_V, KATA_V):
        return (HIRA_PAIRS if mark == HIRA_V else KATA_PAIRS).get(ch, ch)
    if mark in (HIRA, KATA):
        return {v: u for u, v in (HIRA_PAIRS if mark == HIRA else KATA_PAIRS).items()}.get(ch, ch)
    return ch


def check(c):
    w = c.w()
    st = {}
    cfg = field(SELF, "config")
    kanji, kana = as_bool(field(cfg, "normalize_kanji")), as_bool(field(cfg, "normalize_kana"))

    def load():
        key = filters(c, "CharacterFilter")["JapaneseIterationMarkCharacterFilter"]
        r = c.analyse(key)
        s = mk("par", fn_params(c, key)[1])
        chars = mk("call", "str::chars", s)
        out = field(okfield(r.ret), "0")
        base = set()
        for lf in leaves(out):
            while lf.op == "app":
                lf = lf.args[0]
            base.add(lf.args[0] if lf.op == "fin" else lf)
        decided(len(base) == 1, "the text returned is %s" % show(out, 5))
        F = base.pop()
        ls = [l for l in r.loops if F in l.steps]
        decided(ls, "the text returned is %s" % show(out, 5))
        l = ls[0]
        decided(l.L.op == "L" and l.L.args[0] is mk("over", chars), "the text is built over %s" % show(l.L, 4))
        Ms = [m for m in l.steps if any(u.op == "item" and u.args[0] in ("insert", "push", "push_back") and mk("k", l.L) in set(subterms(u)) and m is not F for u in subterms(l.steps[m]) if u.op == "item")
              and any(x.op == "app" and x.args[0] is m and x.args[1].args[0] in ("insert", "push", "push_back") for x in leaves(l.steps[m])) and not (l.inits[m].op == "str")]
        decided(len(Ms) == 1, "pending marks are kept in %s" % ", ".join(show(m, 3) for m in Ms))
        st.update(r=r, l=l, F=F, M=Ms[0], chars=chars, out=out, k=mk("k", l.L), ch=index(chars, mk("k", l.L)))
        require(l.inits[F] is STR(""), "the text starts as %s" % show(l.inits[F], 3))
        require(all(b is FALSE for b in l.brk), "the text ends early, if %s" % show(mk("tup", *l.brk), 5))
        return "text and pending marks"

    def flags(t, j, n):
        t = assume_all(t, kanji if j else NOT(kanji))
        return assume_all(t, kana if n else NOT(kana))

    def held(mark, j, n):
        return mark == KANJI and j or mark in MARKS[1:] and n

    def empty(t):
        return t.op == "arr" and not t.args or t.op == "call" and t.args[0].endswith("::new") or t.op == "call" and t.args[0] in ("set", "Default::default")

    def no_mark(t, M):
        return subst(assume_all(t, zero(length(M))), {length(M): INT(0)})

    def some_mark(t, M):
        return assume_all(assume_all(t, NOT(zero(length(M)))), pos(length(M)))

    def kept():
        l, F, M = st["l"], st["F"], st["M"]
        for j in (False, True):
            for n in (False, True):
                for m in MARKS:
                    if not held(m, j, n):
                        continue
                    f, p = (subst(flags(l.steps[x], j, n), {st["ch"]: INT(m)}) for x in (F, M))
                    what = "%s with normalize_kanji %s and normalize_kana %s" % (chr(m), j, n)
                    require(F in leaves(f), "%s: the mark is written as it is" % what)
                    decided(f.op != "cond" and p.op != "cond", "%s: text becomes %s" % (what, show(f, 4)))
                    require(f is F, "%s: the mark is written as it is" % what)
                    require(p is not M, "%s: the mark is forgotten" % what)
                    decided(p.op == "app" and p.args[0] is M, "%s: pending marks become %s" % (what, show(p, 4)))
                    v = p.args[1].args[1]
                    decided(v.op == "tup" and len(v.args) == 2, "%s: pending marks become %s" % (what, show(p, 4)))
                    st["at"] = [i for i, x in enumerate(v.args) if x is st["k"]]
                    require(len(st["at"]) == 1 and INT(m) in v.args, "%s: kept as %s" % (what, show(v, 4)))
        return "the marks enabled"

    def others():
        """every other character: pending marks written and forgotten, then copied"""
        l, F, M = st["l"], st["F"], st["M"]
        for j in (False, True):
            for n in (False, True):
                f, p = (flags(l.steps[x], j, n) for x in (F, M))
                for m in MARKS:
                    if held(m, j, n):
                        f, p = (assume_all(x, NOT(eq(st["ch"], INT(m)))) for x in (f, p))
                what = "normalize_kanji %s, normalize_kana %s" % (j, n)
                for m in (None,) + tuple(m for m in MARKS if not held(m, j, n)):
                    f1, p1 = f, p
                    if m is not None:
                        f1, p1 = (subst(x, {st["ch"]: INT(m)}) for x in (f, p))
                    else:
                        for x in MARKS:
                            f1, p1 = (assume_all(y, NOT(eq(st["ch"], INT(x)))) for y in (f1, p1))
                    for got in live(no_mark(f1, M)):
                        require(got is not F, "%s: %s is dropped" % (what, chr(m) if m else "a character"))
                        ps = pieces(got, F)
                        want = chr(m) if m else st["ch"]
                        odd = [x for x in ps if not isinstance(x, str) and x is not want]
                        decided(not odd or all(not isinstance(x, tuple) and unresolved(x) is None for x in odd), "%s: written for %s: %s" % (what, chr(m) if m else "a character", show(got, 5)))
                        require(ps == [want], "%s: written for %s: %s" % (what, chr(m) if m else "a character", show(got, 5)))
                    for got in live(some_mark(f1, M)):
                        require(got is not F, "%s: a character is dropped" % what)
                        ps = pieces(got, F)
                        require(len(ps) != 1 or isinstance(ps[0], tuple) is False, "%s: after marks, the character is dropped" % what)
                        require(any(isinstance(x, tuple) for x in ps), "%s: pending marks are not written before %s" % (what, show(got, 4)))
                        decided(len(ps) == 2 and isinstance(ps[0], tuple), "%s: written after marks: %s" % (what, show(got, 5)))
                        same(STR(ps[1]) if isinstance(ps[1], str) else ps[1], STR(chr(m)) if m else st["ch"], "character written after marks")
                        st.setdefault("normalized", {})[(ps[0][1], ps[0][2], (j, n))] = M
                    for got in live(some_mark(p1, M)):
                        if got is M or got.op == "app":
                            raise Violated("%s: marks already written stay pending" % what)
                        decided(empty(got), "%s: pending marks become %s" % (what, show(got, 4)))
                    for got in live(no_mark(p1, M)):
                        decided(got is M or empty(got), "%s: pending marks become %s" % (what, show(got, 4)))
        return "pending marks, then the character"

    def last():
        F, M, out = st["F"], mk("fin", st["M"]), st["out"]
        base = mk("fin", F)
        for got in live(no_mark(out, M)):
            decided(got is base or got is F, "without pending marks the text is %s" % show(got, 5))
        n = 0
        for got in live(some_mark(out, M)):
            require(got is not base, "pending marks are dropped at the end of the text")
            ps = pieces(got, base)
            decided(len(ps) == 1 and isinstance(ps[0], tuple), "at the end is written %s" % show(got, 5))
            st.setdefault("normalized", {})[(ps[0][1], ps[0][2], None)] = M
            n += 1
        require(n, "the text is never returned with pending marks")
        return "pending marks are written at the end"

    def live(t):
        return [x for x in leaves(t) if x.op not in ("undef", "dead")]

    def what_is_written():
        n = 0
        chars = st["chars"]
        P, N, FP, C = (mk("par", "$" + x) for x in ("position", "count", "first", "mark"))
        at = st["at"][0]
        for (L, tree, only), M in st["normalized"].items():
            src = L.args[0]
            decided(src.op == "over", "marks written: %s" % show(src, 4))
            seq = src.args[0]
            decided(seq is M or seq.op == "call" and seq.args[0] in ("map_iter",) and seq.args[1] is M, "marks written: %s" % show(seq, 4))
            e = index(seq, mk("k", L))
            fkv = mk("call", "BTreeMap::first_key_value", M)
            ren = {field(e, str(at)): P, field(e, str(1 - at)): C, length(M): N, field(field(fkv, "0", "Some"), "0"): FP,
                   field(index(M, INT(0)), str(at)): FP, field(index(seq, INT(0)), str(at)): FP}
            t = subst(assume_all(tree, isv(fkv, OPTION, "Some")), ren)
            t = assume_all(assume_all(t, NOT(zero(N))), pos(N))
            some_of = lambda p: pos(sub(length(chars), p))
            for j in (False, True):
                for k in (False, True):
                    for m in MARKS:
                        if not held(m, j, k) or only not in (None, (j, k)):
                            continue
                        for case in ("before", "equal", "after"):
                            x = subst(flags(t, j, k), {C: INT(m)})
                            d = FP if case != "after" else N
                            if case == "equal":
                                x = subst(x, {FP: N})
                                d = N
                            elif case == "before":
                                for g in (pos(sub(N, FP)), NOT(pos(sub(FP, N))), pos(add(sub(N, FP), INT(1))), NOT(pos(add(sub(FP, N), INT(1)))), NOT(zero(sub(N, FP)))):
                                    x = assume_all(x, g)
                            else:
                                for g in (NOT(pos(sub(N, FP))), pos(sub(FP, N)), NOT(pos(add(sub(N, FP), INT(1)))), pos(add(sub(FP, N), INT(1))), NOT(zero(sub(N, FP)))):
                                    x = assume_all(x, g)
                            for q in (P, sub(P, d), sub(P, FP), sub(P, N)):
                                x = assume_all(x, some_of(q))
                            one(x, index(chars, sub(P, d)), m, case)
                            n += 1
        return "%d cases" % n

    def one(x, ch, m, case):
        """tree x writes what mark m stands for, the character repeated being ch"""
        seen = {u for u in subterms(x) if u.op == "idx"}
        where = {"before": "a run that begins fewer characters into the text than it is long", "equal": "a run as long as the text before it", "after": "a run shorter than the text before it"}[case]
        if ch not in seen:
            decided(all(unresolved(u) is None for u in seen) and unresolved(x) is None, "written for %s in %s: %s" % (chr(m), where, show(x, 5)))
            raise Violated("for %s in %s is written %s, not %s" % (chr(m), where, show(x, 5), show(ch, 5)))
        Z = mk("par", "$char")
        x = subst(x, {ch: Z})
        other = [u for u in subterms(x) if u.op == "idx"]
        consts = {0x3041, 0x30FF}
        for u in subterms(x):
            if u.op == "int":
                consts.add(abs(u.args[0]))
        for a in atoms(x):
            un = [u for u in subterms(a) if u.op in ("par", "idx", "call", "f", "mu", "fin") and u is not Z]
            if un and other:
                raise Violated("what is written for %s in %s also depends on %s" % (chr(m), where, show(other[0], 5)))
            decided(not un, "what is written for %s in %s depends on %s" % (chr(m), where, show(a, 5)))
        cps = set(range(0x3030, 0x3110)) | {ord("?"), ord("A"), 0x4E00, 0x6642, 0x1F600, ord("、"), 0xE9}
        for v in consts:
            if 0x20 <= v < 0x110000:
                cps |= set(range(max(0x20, v - 7), min(v + 8, 0x110000)))
        for cp in sorted(cps):
            if 0xD800 <= cp < 0xE000 or cp in MARKS and False:
                continue
            y = subst(x, {Z: INT(cp)})
            y = subst(y, {u: SOME(u.args[1]) for u in subterms(y) if u.op == "call" and u.args[0] == "char::from_u32" and u.args[1].op == "int"})
            decided(y.op == "seq" and len(y.args) == 1, "written for %s after %s: %s" % (chr(m), chr(cp), show(y, 5)))
            g = y.args[0].args[0]
            while g.op == "call" and g.args[0] in ("to_string", "concat", "String::from"):
                g = g.args[1]
            g = strip_cast(g)
            if g.op == "str" and len(g.args[0]) == 1:
                g = INT(ord(g.args[0]))
            decided(g.op == "int", "written for %s after %s: %s" % (chr(m), chr(cp), show(y, 5)))
            require(g.args[0] == written(m, cp), "for %s after %s (U+%04X) is written %s (U+%04X) instead of %s" % (chr(m), chr(cp), cp, chr(g.args[0]), g.args[0], chr(written(m, cp))))

    if c.ob("text and marks", load):
        ok = c.ob("marks held back", kept)
        ok = c.ob("other characters", others) and ok
        ok = c.ob("end of the text", last) and ok
        if ok:
            c.ob("characters written", what_is_written)
