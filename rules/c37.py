"""C37. For every token filter that rewrites texts, the text it leaves for a token is derived as a
decision diagram over the token, per dictionary or kana kind, and compared with the documented one:
the base form or reading column for known words that have it and the text itself otherwise, the
lower- or uppercased text, the text in the chosen kana, or the text without its final prolonged
sound mark if it is all katakana and has more characters than the minimum.  For the character
filters the text returned is compared in the same way: the concatenation of the grapheme clusters of
the text, each in the chosen normalization form, and the text with all matches of the configured
pattern replaced by the configured replacement."""
from .common import *
from .c18 import filters, each, changed, tokens_of, Rest
from .c27 import method

ASSUMES = ["kanaria, regex, unicode-normalization and unicode-segmentation do what they document"]
KINDS = ("IPADIC", "IPADICNEologd", "UniDic", "KoDic", "CcCedict")
BASE = {"IPADIC": 6, "IPADICNEologd": 6, "UniDic": 10}
READING = {"IPADIC": 7, "IPADICNEologd": 7, "UniDic": 6}
EXTRA = ("str::to_lowercase", "str::to_uppercase", "str::ends_with", "str::starts_with", "UCSStr::from_str", "UCSStr::hiragana", "UCSStr::katakana",
         "UCSStr::to_string", "str::chars", "unicode_blocks::find_unicode_block", "char::len_utf8", "str::to_ascii_lowercase", "str::to_ascii_uppercase",
         "UnicodeNormalization::nfc", "UnicodeNormalization::nfd", "UnicodeNormalization::nfkc", "UnicodeNormalization::nfkd",
         "UnicodeSegmentation::graphemes", "Regex::replace_all", "Regex::replace", "str::trim", "str::trim_end", "concat", "str::trim_end_matches",
         "UCSStr::upper_case", "UCSStr::lower_case", "UCSStr::narrow", "UCSStr::wide", "Regex::replacen", "str::replace", "str::is_ascii")
MARK = 0x30FC


def call(n, *a):
    return mk("call", n, *a)


def plain(t):
    """lengths of given characters are numbers"""
    m = {u: INT(len(chr(u.args[1].args[0]).encode())) for u in subterms(t)
         if u.op == "call" and u.args[0] == "char::len_utf8" and u.args[1].op == "int"}
    return arith(subst(t, m)) if m else t


def check(c):
    w = c.w()
    st = {}

    def text(name):
        """(token, diagram of its text afterwards)"""
        if name not in st:
            key = method(c, name, "apply")
            r = c.analyse(key)
            toks = tokens_of(c, key)
            t = r.final(toks.args[0])
            try:
                tok, body = each(t, toks, name)
            except Rest as e:
                raise Violated(str(e))
            require(tok is not None, "%s changes nothing" % name)

            def new(x):
                decided(x.op == "seq" and len(x.args) == 1 and x.args[0].op == "it", "%s: a token becomes %s" % (name, show(x, 4)))
                ch = changed(x.args[0].args[0], tok)
                decided(ch is not None, "%s: a token becomes %s" % (name, show(x, 4)))
                return ch.get("text", field(tok, "text"))
            st[name] = tok, maptree(body, new)
        return st[name]

    def is_(name, tok, got, want, what):
        e = zero(length(field(tok, "text")))
        g = assume_all(got, e)
        if g is not got and assume_all(want, e) is want and all(x is field(tok, "text") or x is STR("") for x in leaves(g)):
            got = assume_all(got, NOT(e))       # nothing is left of an empty text
        same(plain(got), plain(want), what, extra_vocab=EXTRA)

    def of_kind(name, k):
        tok, t = text(name)
        subj = {(u.args[0], u.args[1]) for u in subterms(t) if u.op == "is" and u.args[1].endswith("Kind")}
        decided(len(subj) <= 1, "%s depends on several kinds" % name)
        for s, e in subj:
            t = variant(t, s, e, k)
            if "config" in [u.args[2] for u in subterms(s) if u.op == "f"]:
                same(s, field(field(SELF, "config"), "kind"), "%s: setting the text depends on" % name)
        return tok, t

    def form(tok, n):
        d = field(tok, "details")
        unk = AND(NOT(zero(length(d))), eq(index(d, INT(0)), STR("UNK")))
        has = pos(sub(length(d), INT(n)))
        return ite(unk, field(tok, "text"), ite(has, index(d, INT(n)), field(tok, "text")))

    def forms(name, cols):
        def go():
            for k in KINDS:
                tok, t = of_kind(name, k)
                want = form(tok, cols[k]) if k in cols else field(tok, "text")
                is_(name, tok, t, want, "text for %s" % k)
            return "columns %s" % ", ".join("%s: %d" % (k, cols[k]) for k in KINDS if k in cols)
        return go

    def simple(name, f, what):
        def go():
            tok, t = text(name)
            is_(name, tok, t, f(tok), what)
            return show(t, 6)
        return go

    def kana():
        for k in ("Hiragana", "Katakana"):
            tok, t = of_kind("JapaneseKanaTokenFilter", k)
            x = call("UCSStr::to_string", call("UCSStr::" + k.lower(), call("UCSStr::from_str", field(tok, "text"))))
            is_("JapaneseKanaTokenFilter", tok, t, x, "text for %s" % k)
        return "hiragana or katakana"

    def stem():
        tok, t = text("JapaneseKatakanaStemTokenFilter")
        x = field(tok, "text")
        chars = call("str::chars", x)
        blk = [u for u in subterms(t) if u.op == "exists"]
        finds = {v for u in blk for v in subterms(u) if v.op == "call" and v.args[0] == "unicode_blocks::find_unicode_block"}
        if not blk:
            un = [u for u in vocab(t) if u not in KNOWN and u not in EXTRA]
            decided(not un, "the text becomes %s" % show(t, 6))
            raise Violated("the text becomes %s whether or not it is katakana" % show(t, 6))
        decided(len(blk) == 1, "the text becomes %s" % show(t, 6))
        o = blk[0]
        L = o.args[0]
        same(mk("tup", *[u for u in (L.args[0],)]), mk("tup", mk("over", chars)), "characters tested for being katakana")
        decided(finds, "a character counts as katakana by %s" % show(o.args[1], 6))
        ks = [u for u in subterms(o.args[1]) if u.op == "cst" and "KATAKANA" in show(u, 3)]
        if not ks or show(ks[0], 3).count("EXT"):
            raise Violated("a character counts as katakana by %s" % show(o.args[1], 6))
        blkv = SOME(ks[0])
        fb = call("unicode_blocks::find_unicode_block", index(chars, mk("k", L)))
        same(as_bool(o.args[1]), NOT(as_bool(eq(blkv, fb))), "a character that makes the text no katakana", extra_vocab=EXTRA)
        minimum = field(field(SELF, "config"), "min")
        ends = as_bool(call("str::ends_with", x, INT(MARK)))
        more = pos(sub(length(chars), minimum))
        cut = slice_(x, INT(0), sub(length(x), INT(3)))
        want = ite(o, x, ite(ends, ite(more, cut, x), x))
        is_("", tok, t, want, "text")
        return show(t, 6)

    def normalization():
        key = filters(c, "CharacterFilter")["UnicodeNormalizeCharacterFilter"]
        r = c.analyse(key)
        v = field(okfield(r.ret), "0")
        s = mk("par", fn_params(c, key)[1])
        subj = {(u.args[0], u.args[1]) for u in subterms(v) if u.op == "is" and u.args[1].endswith("Kind")}
        require(subj, "the text does not depend on the kind of normalization")
        decided(len(subj) == 1, "the text depends on several kinds")
        sj, en = subj.pop()
        same(sj, field(field(SELF, "config"), "kind"), "setting the normalization depends on")
        for k in ("NFC", "NFD", "NFKC", "NFKD"):
            x = subst(v, {sj: mk("adt", en, k, ())})
            x = strip_cast(x)
            if x.op == "call" and x.args[0] == "concat" and x.args[1].op == "call" and x.args[1].args[0] == "UnicodeNormalization::" + k.lower():
                require(strip_cast(x.args[1].args[1]) is s, "%s of %s" % (k, show(x.args[1].args[1], 4)))
                continue
            decided(x.op == "call" and x.args[0] == "concat" and x.args[1].op == "coll", "text in %s: %s" % (k, show(x, 6)))
            L, tr = x.args[1].args
            decided(tr.op == "seq", "text in %s: %s" % (k, show(x, 6)))
            require(len(tr.args) == 1, "a cluster becomes %d strings" % len(tr.args))
            decided(L.args[0].op == "over", "text in %s: %s" % (k, show(x, 6)))
            src = L.args[0].args[0]
            decided(src.op == "call" and src.args[0] in ("UnicodeSegmentation::graphemes", "str::chars"), "clusters are %s" % show(src, 5))
            require(src.args[0] != "str::chars", "single characters are normalized, so sequences stay decomposed")
            require(strip_cast(src.args[1]) is s, "clusters of %s" % show(src, 5))
            it = tr.args[0].args[0]
            while it.op == "call" and it.args[0] in ("concat", "to_string"):
                it = it.args[1]
            want = call("UnicodeNormalization::" + k.lower(), index(src, mk("k", L)))
            same(it, want, "a cluster in %s" % k, extra_vocab=EXTRA)
        return "NFC, NFD, NFKC, NFKD"

    def regex():
        key = filters(c, "CharacterFilter")["RegexCharacterFilter"]
        r = c.analyse(key)
        v = strip_cast(field(okfield(r.ret), "0"))
        s = mk("par", fn_params(c, key)[1])
        while v.op == "call" and v.args[0] in ("to_string", "Cow::into_owned", "Cow::to_string"):
            v = v.args[1]
        want = call("Regex::replace_all", field(SELF, "regex"), s, field(field(SELF, "config"), "replacement"))
        same(v, want, "text returned", extra_vocab=EXTRA)
        nr = c.analyse(method(c, "RegexCharacterFilter", "new"), "all")
        o = okfield(nr.ret)
        rx = field(o, "regex")
        cf = mk("par", fn_params(c, nr.key)[0])
        decided(rx.op == "f" and rx.args[0].op == "call" and rx.args[0].args[0] == "Regex::new", "the pattern is compiled by %s" % show(rx, 5))
        same(rx.args[0].args[1], field(cf, "pattern"), "pattern compiled")
        same(field(o, "config"), cf, "settings kept")
        return show(v, 5)

    c.ob("base form", forms("JapaneseBaseFormTokenFilter", BASE))
    c.ob("Japanese reading", forms("JapaneseReadingFormTokenFilter", READING))
    c.ob("Korean reading", simple("KoreanReadingFormTokenFilter", lambda tok: form(tok, 3), "text"))
    c.ob("lowercase", simple("LowercaseTokenFilter", lambda tok: call("str::to_lowercase", field(tok, "text")), "text"))
    c.ob("uppercase", simple("UppercaseTokenFilter", lambda tok: call("str::to_uppercase", field(tok, "text")), "text"))
    c.ob("kana", kana)
    c.ob("katakana stem", stem)
    c.ob("normalization", normalization)
    c.ob("regular expression", regex)
