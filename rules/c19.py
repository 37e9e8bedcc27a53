"""C19. The condition under which each keep, stop and length filter contributes a token, and under
which the number filter rewrites and the compound filter joins one, is derived as a decision diagram.
The rule: it depends on nothing but whether the configured set contains the token's text (word
filters), its first detail (Korean tag filters) or the four-part form of its details (Japanese tag
filters: the first four details if there are four, otherwise the first, "*" elsewhere, joined by
commas), with the outcome the filter's name says; the length filter's condition is compared with
both inclusive bounds.  For every constructor of a configuration the set it stores is derived from
the set given: unchanged for words and Korean tags, and each tag split at commas and filled up with
"*" to the same four-part form for Japanese tags, where only a tag of more than four parts may be
left out or rejected."""
ASSUMES = ["tokens have details"]
from .common import *
from .c18 import filters, each, Rest, tokens_of, live, joiner, transitions, unresolved_in, changed
from .c27 import method

KEEP, STOP = True, False
SETS = {"KeepWordsTokenFilter": ("words", KEEP, "text"), "StopWordsTokenFilter": ("words", STOP, "text"),
        "KoreanKeepTagsTokenFilter": ("tags", KEEP, "first"), "KoreanStopTagsTokenFilter": ("tags", STOP, "first"),
        "JapaneseKeepTagsTokenFilter": ("tags", KEEP, "form"), "JapaneseStopTagsTokenFilter": ("tags", STOP, "form")}
JAPANESE = ("JapaneseKeepTagsTokenFilter", "JapaneseStopTagsTokenFilter", "JapaneseCompoundWordTokenFilter", "JapaneseNumberTokenFilter")
COMMA = INT(44)
STARS = mk("arr", *(STR("*"),) * 4)


def four(L, v):
    return pure("slice::join", mk("mapd", STARS, L, v(mk("k", L))), STR(","))


def token_form(tok):
    d = field(tok, "details")
    n = ite(pos(sub(length(d), INT(3))), INT(4), INT(1))
    return four(mk("L", mk("range", INT(0), n), 0), lambda k: index(d, k))


def tag_form(s):
    p = pure("str::split", s, COMMA)
    return four(mk("L", mk("over", p), 0), lambda k: index(p, k))


def wanted(how, tok):
    if how == "text":
        return field(tok, "text")
    if how == "first":
        return index(field(tok, "details"), INT(0))
    return token_form(tok)


def detailed(t, tok):
    """the value for a token with details"""
    c = pos(length(field(tok, "details")))
    for _ in range(8):
        m = {u: v for u in subterms(t) if u.op == "cond" for v in (assume_all(u, c),) if v is not u}
        if not m:
            break
        t = subst(t, m)
    return t


def membership(cond, tok, what):
    """the contains() tests of a condition"""
    cs = {u for a in atoms(cond) for u in subterms(a) if u.op == "call" and u.args[0] == "contains"}
    top = {a for a in atoms(cond) if a.op == "call" and a.args[0] == "contains"}
    if not cs:
        bad = [u for u in subterms(cond) if u.op == "call" and u.args[0] not in KNOWN_CALLS]
        decided(not bad and not unresolved_in2(cond) and not any(a.op in ("exists", "exitby") for a in atoms(cond)), "%s: condition %s" % (what, show(cond, 6)))
        raise Violated("%s does not depend on membership in a set but on %s" % (what, show(cond, 6)))
    decided(cs == top and len(top) == 1, "%s: condition %s" % (what, show(cond, 6)))
    return top.pop()


KNOWN_CALLS = ("len", "str::chars", "str::starts_with", "str::ends_with", "str::split", "slice::join", "cast", "str::to_lowercase", "str::trim")


def unresolved_in2(t):
    return [u for u in subterms(t) if u.op in ("mu", "fin", "mut", "undef", "dead")]


def config_path(t):
    """names of the fields of self a value is taken from"""
    names = []
    while t.op == "f":
        if t.args[2] != "0":
            names.append(t.args[2])
        t = t.args[0]
    return names[::-1] if t is SELF else None


def outcome(cond, a, if_in, what):
    """the condition is exactly membership (or its negation)"""
    r1, r0 = assume(cond, a, True), assume(cond, a, False)
    for r, want, txt in ((r1, if_in, "in"), (r0, not if_in, "not in")):
        if r is bconst(want):
            continue
        if r in (TRUE, FALSE):
            raise Violated("%s: a token %s the set is %s" % (what, txt, "kept" if r is TRUE else "removed"))
        decided(not unresolved_in2(r), "%s: condition %s" % (what, show(r, 5)))
        raise Violated("%s: a token %s the set is kept only if %s" % (what, txt, show(r, 6)) if not want else
                       "%s: a token %s the set is removed unless %s" % (what, txt, show(r, 6)))


def set_members(t, what):
    """(source set, element, condition it is stored under, stored value) of a stored set"""
    if t.op == "app" and t.args[1].op == "item" and t.args[1].args[0] == "each":
        b = t.args[0]
        decided(b.op == "call" and b.args[0] == "set" and b.args[1].op == "arr" and not b.args[1].args, "%s is %s" % (what, show(t, 4)))
        c_ = t.args[1].args[1]
        unwrap = lambda x: x.args[1] if x.op == "item" and x.args[0] == "insert" else None
    elif t.op == "call" and t.args[0] == "set":
        c_ = t.args[1]
        unwrap = lambda x: x
    else:
        return t, None, None, None
    decided(c_.op == "coll" and c_.args[0].op == "L" and c_.args[0].args[0].op == "over", "%s is %s" % (what, show(t, 4)))
    L, body = c_.args
    src = L.args[0].args[0]
    g = maptree(body, lambda x: bconst(x.op == "seq" and len(x.args) > 0))
    xs = {x for x in live(body) if x.op == "seq" and x.args}
    decided(len(xs) == 1 and len(list(xs)[0].args) == 1, "%s is %s" % (what, show(t, 4)))
    v = unwrap(xs.pop().args[0].args[0])
    decided(v is not None, "%s is %s" % (what, show(t, 4)))
    return src, index(src, mk("k", L)), g, v




def check(c):
    c.w()
    fs = filters(c)
    st = {}

    def body_of(name):
        key = fs[name]
        r = c.analyse(key)
        toks = tokens_of(c, key)
        try:
            return each(r.final(toks.args[0]), toks, name)
        except Rest as e:
            raise Violated(str(e))

    c.floor("keep and stop filters", len([n for n in SETS if n in fs]), 6)
    for name, (fld, kind, how) in sorted(SETS.items()):
        def go(name=name, fld=fld, kind=kind, how=how):
            if name not in fs:
                raise Missing("no filter %s" % name)
            tok, body = body_of(name)
            if tok is None:
                raise Violated("%s keeps every token" % name)
            keep = maptree(body, lambda x: bconst(x.op == "seq" and len(x.args) > 0) if x.op == "seq" else x)
            keep = detailed(keep, tok)
            a = membership(keep, tok, name)
            p = config_path(a.args[1])
            decided(p is not None, "%s: set %s" % (name, show(a.args[1], 4)))
            require(p[-1] == fld, "%s: tested against %s" % (name, ".".join(p)))
            m = {tok: mk("par", "token")}
            same(subst(a.args[2], m), subst(wanted(how, tok), m), "%s: what is looked up in the set" % name, extra_vocab=("len",))
            outcome(keep, a, kind is KEEP, name)
        c.ob("%s: kept tokens" % name, go)

    def len_():
        tok, body = body_of("LengthTokenFilter")
        if tok is None:
            raise Violated("the length filter keeps every token")
        keep = maptree(body, lambda x: bconst(x.op == "seq" and len(x.args) > 0) if x.op == "seq" else x)
        subj = {}
        for u in subterms(keep):
            if u.op == "is" and u.args[2] in ("Some", "None"):
                p = config_path(u.args[0])
                if p:
                    subj[p[-1]] = u.args[0]
        n = length(pure("str::chars", field(tok, "text")))
        want = TRUE
        for b in ("min", "max"):
            require(b in subj, "the length filter does not test %s" % b)
            v = field(subj[b], "0", "Some")
            ok = NOT(pos(sub(v, n))) if b == "min" else NOT(pos(sub(n, v)))
            want = AND(want, OR(NOT(as_bool(isv(subj[b], OPTION, "Some"))), ok))
        if keep is want:
            return
        m = {tok: mk("par", "token")}
        decided(not unresolved_in2(keep), "condition %s" % show(keep, 5))
        unk = [u for u in subterms(keep) if u.op == "call" and u.args[0] not in KNOWN_CALLS]
        decided(not unk, "condition %s" % show(keep, 5))
        same(subst(keep, m), subst(want, m), "tokens kept")
        raise Violated("tokens are kept if %s" % show(keep, 8))
    c.ob("LengthTokenFilter: kept tokens", len_)

    def number():
        tok, body = body_of("JapaneseNumberTokenFilter")
        decided(tok is not None, "tokens are not changed")
        edit = maptree(body, lambda x: bconst(bool(changed(x.args[0].args[0], tok))) if x.op == "seq" and len(x.args) == 1 else x)
        subj = {u.args[0] for u in subterms(edit) if u.op == "is" and config_path(u.args[0]) and config_path(u.args[0])[-1] == "tags"}
        require(subj, "which tokens are rewritten does not depend on whether tags are set: %s" % show(edit, 5))
        decided(len(subj) == 1, "condition %s" % show(edit, 5))
        s = as_bool(isv(subj.pop(), OPTION, "Some"))
        none, some = assume_all(edit, NOT(s)), assume_all(edit, s)
        if none is not TRUE:
            decided(not unresolved_in2(none) and none.op != "seq", "condition %s" % show(none, 5))
            raise Violated("without tags a token is rewritten only if %s" % show(none, 6))
        some = detailed(some, tok)
        a = membership(some, tok, "JapaneseNumberTokenFilter")
        m = {tok: mk("par", "token")}
        same(subst(a.args[2], m), subst(token_form(tok), m), "what is looked up in the tags", extra_vocab=("len",))
        r1, r0 = assume(some, a, True), assume(some, a, False)
        require(r1 is not FALSE and r0 is not TRUE, "tokens are rewritten if not in the set of tags" if r0 is TRUE else "no token is rewritten")
        if r1 is not TRUE or r0 is not FALSE:
            decided(not unresolved_in2(r1) and not unresolved_in2(r0), "condition %s" % show(some, 5))
            raise Violated("whether a token is rewritten also depends on %s" % show(r1 if r1 is not TRUE else r0, 6))
    c.ob("JapaneseNumberTokenFilter: rewritten tokens", number)

    def unresolved_other(q, P):
        return [u for u in subterms(q) if u.op in ("fin", "mut", "undef", "dead") or u.op == "mu" and u is not P]

    def compound():
        key = fs.get("JapaneseCompoundWordTokenFilter")
        if key is None:
            raise Missing("no compound word filter")
        r, l, N, P, toks, _ = joiner(c, key)
        tok = index(toks, mk("k", l.L))
        m = {tok: mk("par", "token")}
        for had, cs in transitions(l, N, P):
            for ps, nxt, g in cs:
                g = detailed(g, tok)
                if g is FALSE:
                    continue
                a = membership(g, tok, "JapaneseCompoundWordTokenFilter")
                if not st.get("lookup"):
                    same(subst(a.args[2], m), subst(token_form(tok), m), "what is looked up in the tags", extra_vocab=("len",))
                    st["lookup"] = True
                rest = [q for q in atoms(g) if q is not a]
                where = " if %s" % show(g, 6)
                inside, outside = assume(g, a, True), assume(g, a, False)
                if inside is not FALSE:
                    if not nxt:
                        decided(not [q for q in rest if unresolved_other(q, P)], "case%s" % where)
                        raise Violated("a token with a configured tag is not joined to the next%s" % where)
                    if ps and had:
                        decided(not [q for q in rest if unresolved_other(q, P)], "case%s" % where)
                        raise Violated("consecutive tokens with configured tags are not joined%s" % where)
                if outside is not FALSE:
                    if nxt:
                        decided(not [q for q in rest if unresolved_other(q, P)], "case%s" % where)
                        raise Violated("a token without a configured tag takes part in joining%s" % where)
    c.ob("JapaneseCompoundWordTokenFilter: joined tokens", compound)

    # ---------------------------------------------------------------- configurations
    n = 0
    for name in sorted(set(SETS) | set(JAPANESE)):
        fld = SETS.get(name, ("tags",))[0]
        for ctor in ("new", "from_slice", "from_value"):
            try:
                key = method(c, name + "Config", ctor)
            except Missing:
                continue
            n += 1

            def conf(name=name, fld=fld, ctor=ctor, key=key):
                r = c.analyse(key)
                res = r.ret
                okc = TRUE
                if any(x.op == "adt" and x.args[0] == RESULT for x in live(res)):
                    okc = as_bool(isv(res, RESULT, "Ok"))
                    v = field(okfield(res), fld)
                else:
                    v = field(res, fld)
                opt = name == "JapaneseNumberTokenFilter"
                vals = live(v)
                if opt:
                    vals = [field(x, "0", "Some") for x in vals if not (x.op == "adt" and x.args[1] == "None")]
                    vals = [y for x in vals for y in live(x)]
                decided(vals, "no set is stored")
                for x in vals:
                    src, el, g, stored = set_members(x, "the set stored")
                    if el is None:
                        if name in JAPANESE:
                            decided(not unresolved_in2(src) and (src.op in ("par", "f")), "the set stored is %s" % show(src, 5))
                            raise Violated("tags are stored as given, not in their four-part form")
                        decided(src.op in ("par", "f"), "the set stored is %s" % show(src, 5))
                        settled(src, ctor, fld)
                        continue
                    if name in JAPANESE and not (src.op == "call" and src.args[0] == "Value::as_array") and not as_array(src):
                        e = mk("par", "tag")
                        same(subst(stored, {el: e}), tag_form(e), "stored form of a tag")
                        dropped = AND(NOT(g), okc) if okc is not TRUE else NOT(g)
                        many = pos(sub(length(pure("str::split", el, COMMA)), INT(4)))
                        x_ = AND(dropped, NOT(as_bool(many)))
                        if x_ is not FALSE and assume_all(NOT(g), NOT(as_bool(many))) is not FALSE:
                            d = assume_all(NOT(g), NOT(as_bool(many)))
                            decided(not unresolved_in2(d), "tags left out if %s" % show(d, 5))
                            raise Violated("a tag of at most four parts is left out if %s" % show(d, 6))
                        inner, el2, g2, st2 = set_members(src, "the set given")
                        if el2 is None:
                            settled(src, ctor, fld)
                        else:
                            strings(inner, el2, g2, st2, fld, okc)
                    elif as_array(src):
                        if name in JAPANESE:
                            raise Violated("tags are stored as %s, not in their four-part form" % show(stored, 5))
                        strings(src, el, g, stored, fld, okc)
                    else:
                        e = mk("par", "member")
                        same(subst(stored, {el: e}), e, "stored form of a member")
                        if g is not TRUE:
                            decided(not unresolved_in2(g), "members are stored if %s" % show(g, 5))
                            raise Violated("members are stored only if %s" % show(g, 5))
                        settled(src, ctor, fld)

            def as_array(t):
                while t.op == "f":
                    t = t.args[0]
                return t.op == "call" and t.args[0].split("<")[0].endswith("as_array")

            def settled(src, ctor, fld):
                """the set given: the parameter, or that field of the deserialized settings"""
                if ctor == "new":
                    s = src
                    while s.op == "f" and s.args[2] == "0":
                        s = s.args[0]
                    decided(s.op == "par", "the set given is %s" % show(src, 4))
                    return
                decided(src.op == "f", "the set given is %s" % show(src, 4))
                s = src
                if s.args[2] == "0":
                    s = s.args[0]
                require(s.op == "f" and s.args[2] == fld, "the set is taken from %s" % show(src, 4))

            def strings(src, el, g, stored, fld, okc):
                v = src
                while v.op == "f":
                    v = v.args[0]
                j = v.args[1]
                if j.op == "f":
                    j = j.args[0]
                names = {u.args[0] for u in subterms(v) if u.op == "str"}
                require(fld in names, "the set is taken from setting %s" % sorted(names))
                want = field(pure("Value::as_str", el), "0", "Some")
                same(subst(stored, {el: mk("par", "e")}), subst(want, {el: mk("par", "e")}), "member stored for a string of the settings", extra_vocab=("Value::as_str",))
                if g is not TRUE:
                    d = NOT(g)
                    d = assume_all(d, as_bool(isv(pure("Value::as_str", el), OPTION, "Some")))
                    decided(not unresolved_in2(d), "strings left out if %s" % show(d, 5))
                    require(d is FALSE, "a string of the settings is left out if %s" % show(d, 6))
            c.ob("%sConfig::%s: set stored" % (name, ctor), conf)
    c.floor("constructors of set configurations", n, 18)

    for name in sorted(set(SETS) | set(JAPANESE) | {"LengthTokenFilter"}):
        def keepconf(name=name):
            key = method(c, name, "new")
            r = c.analyse(key)
            p = mk("par", fn_params(c, key)[0])
            v = [f for f in dict(r.ret.args[2]).values()] if r.ret.op == "adt" else None
            decided(v is not None and len(v) >= 1, "%s::new returns %s" % (name, show(r.ret, 4)))
            if p not in v:
                decided(not unresolved(r.ret), "%s::new returns %s" % (name, show(r.ret, 4)))
                raise Violated("%s::new does not keep the configuration but %s" % (name, show(r.ret, 5)))
        c.ob("%s: configuration kept" % name, keepconf)

    def newtag():
        key = method(c, "JapaneseCompoundWordTokenFilterConfig", "new")
        r = c.analyse(key)
        v = field(okfield(r.ret), "new_tag")
        ps = [mk("par", p) for p in fn_params(c, key)]
        for x in live(v):
            if x.op == "adt" and x.args[1] == "Some":
                y = dict(x.args[2])["0"]
                src = [p for p in ps if p in subterms(y)]
                decided(len(src) == 1, "stored tag is %s" % show(y, 4))
                e = field(src[0], "0", "Some")
                same(subst(y, {e: mk("par", "tag")}), tag_form(mk("par", "tag")), "stored form of the new tag")
    c.ob("JapaneseCompoundWordTokenFilterConfig: new tag", newtag)
