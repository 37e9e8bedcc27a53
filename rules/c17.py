"""C17. Where details come from is decided at four places.  Token::get_details is split by the four
facts it may depend on (details present, unknown word, system word, user dictionary present) with the
two word_details functions uninterpreted: the rule fixes the value returned and the value remembered
in each case (present details unchanged; UNK for unknown words; otherwise word_details of the
dictionary the word's flag names, with the word's own id; no details without user dictionary).
Every entry a PrefixDict yields carries that dictionary's flag; every function that makes a
PrefixDict, and every loader and builder of a dictionary, is evaluated to the flag it ends up with
(system dictionaries set, user dictionaries cleared); and unknown entries carry the id that counts as
unknown.  Tokens are made without details and with the tokenizer's own two dictionaries."""
from .common import *
from .c27 import method

DETAILS = ("Dictionary::word_details", "UserDictionary::word_details")


def live(t):
    return [x for x in leaves(t) if x.op not in ("undef", "dead")]


def flag_of(v):
    """is_system of a prefix dictionary, or of the dictionary holding it"""
    d = field(v, "dict")
    return field(d, "is_system")


def check(c):
    w = c.w()
    st = {}

    def token():
        if "r" not in st:
            key = method(c, "Token", "get_details")
            opq = [k for k in w.find("word_details") if "promoted" not in k and "{closure" not in k]
            st["r"] = c.analyse(key, None, opaque=tuple(opq))
            st["key"] = key
        return st["r"]

    D = field(SELF, "details")
    WID = field(SELF, "word_id")
    ID, FLAG = field(WID, "0"), field(WID, "1")
    USER = field(SELF, "user_dictionary")
    have = as_bool(isv(D, OPTION, "Some"))
    unk = zero(sub(ID, INT(0xffffffff)))
    user = as_bool(isv(USER, OPTION, "Some"))
    sysd = pure(DETAILS[0], field(SELF, "dictionary"), ID)
    usrd = pure(DETAILS[1], field(USER, "0", "Some"), ID)

    def case(name, conds, want, again=None):
        def go():
            r = token()
            ret, fin_ = r.ret, r.final("self")
            decided(fin_ is not None, "final token is not known")
            for q in conds:
                ret, fin_ = assume_all(ret, q), assume_all(fin_, q)
            kept = field(fin_, "details")
            for q in conds:
                kept = assume_all(kept, q)
            for what, v in (("returned", ret), ("remembered", kept)):
                matches(v, want, "details %s for %s" % (what, name), conds)
            for f_ in (x for x in live(fin_) if x.op == "upd"):
                others = {n for (_, n), v in f_.args[1]} - {"details"}
                require(not others, "%s of the token is changed" % ", ".join(sorted(others)))
        c.ob("details of %s" % name, go)

    def elems(t):
        """Vec built element by element from a known list"""
        if t.op == "coll" and t.args[0].op == "L":
            s = t.args[0].args[0]
            b = t.args[1]
            if s.op == "over" and b.op == "seq" and len(b.args) == 1 and b.args[0].op == "it" and b.args[0].args[0] is index(s.args[0], mk("k", t.args[0])):
                return elems(s.args[0])
            if s.op == "range" and s.args[0] is INT(0) and s.args[1].op == "int" and s.args[1].args[0] < 8 and b.op == "seq" and len(b.args) == 1:
                k = mk("k", t.args[0])
                return mk("arr", *[subst(b.args[0].args[0], {k: INT(i)}) for i in range(s.args[1].args[0])])
        return t

    def matches(v, want, what, conds=()):
        """v is an Option with the same content as want"""
        is_ = as_bool(isv(want, OPTION, "Some")) if want.op != "adt" else bconst(want.args[1] == "Some")
        got = as_bool(isv(v, OPTION, "Some"))
        for q in conds:
            got = assume_all(got, q)
        if got is not is_:
            decided(not unresolved(got), "%s are %s" % (what, show(v, 5)))
            other = vocab(got) - {x for x in DETAILS}
            decided(not other or got in (TRUE, FALSE), "%s are %s" % (what, show(v, 5)))
            raise Violated("%s are present if %s, expected if %s" % (what, show(got, 5), show(is_, 5)))
        if got is FALSE:
            return
        a, b = field(v, "0", "Some"), field(want, "0", "Some")
        if got is not TRUE:
            a, b = assume_all(a, got), assume_all(b, got)
        same(elems(a), elems(b), what)

    none, unk_list = NONE, SOME(mk("arr", STR("UNK")))
    case("a token that has details", [have], SOME(field(D, "0", "Some")))
    case("an unknown word", [NOT(have), as_bool(unk)], unk_list)
    case("a system word", [NOT(have), NOT(as_bool(unk)), as_bool(FLAG)], sysd)
    case("a user word", [NOT(have), NOT(as_bool(unk)), NOT(as_bool(FLAG)), user], usrd)
    case("a user word without user dictionary", [NOT(have), NOT(as_bool(unk)), NOT(as_bool(FLAG)), NOT(user)], none)

    def setter():
        key = method(c, "Token", "set_details")
        r = c.analyse(key)
        p = mk("par", fn_params(c, key)[1])
        f_ = r.final("self")
        same(field(f_, "details"), p, "details after setting them")
        others = {n for (_, n), v in f_.args[1]} - {"details"} if f_.op == "upd" else set()
        require(not others, "setting details changes %s" % ", ".join(sorted(others)))
    c.ob("details set explicitly", setter)

    # ------------------------------------------------------------ flags
    def entries(name):
        def go():
            r = c.analyse(method(c, "PrefixDict", name))
            ids = {u for u in subterms(r.ret) if u.op == "adt" and u.args[0].endswith("WordId")}
            decided(ids, "%s yields %s" % (name, show(r.ret, 4)))
            for u in ids:
                same(field(u, "1"), field(SELF, "is_system"), "flag of an entry")
        return go
    for n in ("prefix", "find_surface"):
        c.ob("PrefixDict::%s: flag of the entries" % n, entries(n))

    makers = 0
    for k, f in sorted(w.fns.items()):
        if "promoted" in k or "{closure" in k or not k.startswith("lindera"):
            continue
        ty = str((f.locals[0].get("ty") if f.locals else "") or "")
        if "serde" in ty or "serde" in k or "__" in k or "deserialize" in k:
            continue
        if f.d.get("impl_trait_of", "") or k.endswith("::clone"):
            continue
        tail = [p.split("<")[0].split("::")[-1] for p in ty.replace(">", "<").replace(",", "<").split("<")]
        if "Dictionary" in tail:
            want, get = TRUE, flag_of
        elif "UserDictionary" in tail:
            want, get = FALSE, flag_of
        elif "PrefixDict" in tail and "builder" not in k:
            want, get = TRUE, lambda v: field(v, "is_system")
        else:
            continue
        makers += 1

        def made(k=k, want=want, get=get):
            r = c.analyse(k, "all" if "user_dict" in k else None)
            vs = [field(x, "0", "Ok") for x in live(r.ret) if x.op == "adt" and x.args[1] == "Ok"] if "Result" in str(w.fns[k].locals[0].get("ty")) else live(r.ret)
            n = 0
            for v in vs:
                for x in live(get(v)):
                    if x.op == "f":
                        b = x
                        while b.op == "f":
                            b = b.args[0]
                        if b.op == "call" and b.args[0].startswith("bincode::deserialize"):
                            continue
                        if b.op == "call" and b.args[0].split("::")[0] in ("DictionaryBuilder",):
                            continue
                    n += 1
                    if x is not want:
                        if x not in (TRUE, FALSE) and unresolved(x) is None and not contains(x, want):
                            raise Violated("%s: words are marked as words of the %s dictionary only if %s" % (k, "system" if want is TRUE else "user", show(x, 4)))
                        decided(x in (TRUE, FALSE), "flag is %s" % show(x, 4))
                        raise Violated("%s: words are marked as words of %s" % (k, "the user dictionary" if want is TRUE else "the system dictionary"))
            return "%d values" % n
        c.ob("%s: flag of the dictionary" % k, made)
    c.floor("functions that make dictionaries", makers, 15)

    def unknown():
        key = [k for k in w.find("parse_unk") if "promoted" not in k]
        r = c.analyse(key[0] if key else "parse_unk")
        v = okfield(r.ret)
        ids = {u for u in subterms(v) if u.op == "adt" and u.args[0].endswith("WordId")}
        decided(ids, "unknown entries are %s" % show(v, 4))
        t = c.analyse(method(c, "WordId", "is_unknown")).ret
        for u in ids:
            x = as_bool(subst(t, {field(SELF, "0"): field(u, "0"), field(SELF, "1"): as_bool(field(u, "1"))}))
            if x is not TRUE:
                decided(x is FALSE or not unresolved(x), "id of an unknown entry is %s" % show(u, 4))
                raise Violated("an entry for unknown words has id %s, which is %s" % (show(field(u, "0"), 3), "a known word" if x is FALSE else "unknown only if %s" % show(x, 4)))
    c.ob("ids of unknown words", unknown)

    def tok():
        key = method(c, "Tokenizer", "tokenize")
        lat = [method(c, "Lattice", n) for n in ("set_text", "calculate_path_costs", "tokens_offset")]
        r = c.analyse(key, opaque=tuple(lat))
        ts = {u for u in subterms(r.ret) if u.op == "adt" and u.args[0].endswith("::Token")}
        decided(ts, "tokens are %s" % show(r.ret, 4))
        u = field(SELF, "user_dictionary")
        some = as_bool(isv(u, OPTION, "Some"))
        for t in ts:
            same(field(t, "dictionary"), field(SELF, "dictionary"), "dictionary of a token")
            x = field(t, "user_dictionary")
            a, b = assume_all(x, some), assume_all(x, NOT(some))
            if a is not u:
                same(field(a, "0", "Some"), field(u, "0", "Some"), "user dictionary of a token")
                require(as_bool(isv(a, OPTION, "Some")) in (TRUE, some), "a token gets no user dictionary")
            require(as_bool(assume_all(as_bool(isv(b, OPTION, "None")), NOT(some))) is TRUE, "without user dictionary a token gets %s" % show(b, 4))
            d = field(t, "details")
            require(isv(d, OPTION, "None") is TRUE, "a new token has details %s" % show(d, 4))
    c.ob("dictionaries of a token", tok)
