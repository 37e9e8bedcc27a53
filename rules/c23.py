"""C23. The hand-written and derived serde code of the configuration types is reduced to tables:
which name visit_str turns into which key, which variable visit_map stores the value of that key in
(a loop summary: one step per key), which struct field that variable ends in, what is used when it
is absent, and which names serialize writes from which fields in which order. The rule: name, key,
variable and field belong together; a second value for the same key, an unknown name, a failing
value and a missing dictionary end in an error; absent mode is normal and absent user dictionary is
none; what serialize writes is what the reader expects, by name and by position. The construction
of the tokenizer and the analyzer from a configuration is reduced to closed form, with the loaders
left uninterpreted: every part must reach the loader and the field it is meant for, filters in the
order configured, each with its own name and settings, and every failure is returned."""
import re
from .common import *

ASSUMES = ["serde and serde_json call the visitors as documented; a JSON value re-serialized reads back the same"]


def adt_named(c, crate, name):
    w = c.w()
    ks = {a["key"] for a in w.adts.values() if a and a.get("key", "").startswith(crate + "::") and a["key"].split("::")[-1] == name}
    if not ks:
        raise Missing("type %s in %s" % (name, crate))
    decided(len(ks) == 1, "type %s: %s" % (name, ks))
    return ks.pop()


def visitor(c, crate, method, adt):
    out = []
    for k in c.w().fns:
        f = c.w().fns[k]
        if f.crate != crate or "promoted" in k or not k.endswith("::" + method):
            continue
        try:
            r = analyse(k)
        except Undecided:
            continue
        if any(u.op == "adt" and u.args[0] == adt for u in subterms(r.ret)):
            c.functions |= r.visited | {k}
            out.append(r)
    return out


def key_enum(l):
    out = set()
    for t in [l.cont] + list(l.steps.values()):
        for u in subterms(t):
            if u.op == "is" and u.args[1] not in (RESULT, OPTION) and contains_call(u.args[0], "MapAccess::next_key"):
                out.add((u.args[0], u.args[1]))
    return out


def contains_call(t, name):
    return any(u.op == "call" and u.args[0].startswith(name) for u in subterms(t))


def read_map(c, r, adt):
    """(variant of the key -> field, field -> value when absent or 'required')"""
    ret = r.ret
    ls = [l for l in r.loops if key_enum(l)]
    decided(len(ls) == 1, "%d loops over the keys of a map" % len(ls))
    l = ls[0]
    (subj, enum), = key_enum(l)
    vs = VARIANTS.get(enum)
    decided(vs is not None, "key type %s" % enum)
    nk = [u for u in subterms(subj) if u.op == "call" and u.args[0].startswith("MapAccess::next_key")]
    decided(nk, "keys come from %s" % show(subj, 4))
    more = AND(isv(nk[0], RESULT, "Ok"), isv(field(nk[0], "0", "Ok"), OPTION, "Some"))
    by, absent = {}, {}
    val = okfield(ret)
    for leaf in leaves(val):
        decided(leaf.op == "adt" and leaf.args[0] == adt, "reading gives %s" % show(leaf, 4))
    fs = [n for n, _ in leaves(val)[0].args[2]]
    # steps that end the reading early end it with an error
    ex = {u for a in atoms(isv(ret, RESULT, "Ok")) for u in [a] if u.op == "exitby"}
    decided(ex, "the loop over the keys is left in an unknown way")
    for a in ex:
        early = assume_all(a.args[1], more)
        if early is FALSE:
            continue
        t = isv(ret, RESULT, "Ok")
        for b in ex:
            t = assume(t, b, b is a)
        require(t is FALSE, "reading stops early, but succeeds, when %s" % show(early, 5))
    for f in fs:
        v = field(val, f)
        ms = {u for u in subterms(v) if u.op == "mu"}
        decided(len(ms) == 1 and list(ms)[0] in l.steps, "%s is %s" % (f, show(v, 4)))
        m = ms.pop()
        decided(l.inits[m].op == "adt" and l.inits[m].args[1] == "None", "%s starts as %s" % (f, show(l.inits[m], 3)))
        there = isv(m, OPTION, "Some")
        same(assume_all(v, there), field(m, "0", "Some"), "setting %s" % f)
        ok0 = assume_all(isv(ret, RESULT, "Ok"), NOT(there))
        absent[f] = "required" if ok0 is FALSE else assume_all(v, NOT(there))
        step = l.steps[m]
        for k in vs:
            s = variant(step, subj, enum, k)
            if s is m:
                continue
            decided(s.op == "adt" and s.args[1] == "Some", "%s set to %s" % (f, show(s, 4)))
            x = field(s, "0", "Some")
            decided(x.op == "f" and x.args[1] == "Ok" and contains_call(x.args[0], "MapAccess::next_value"), "%s set to %s" % (f, show(x, 4)))
            require(k not in by, "one setting is stored in %s and %s" % (by.get(k), f))
            by[k] = f
            cont = variant(l.cont, subj, enum, k)
            require(assume_all(cont, there) is FALSE, "a second value for %s is not rejected" % f)
            bad = isv(x.args[0], RESULT, "Err")
            require(assume_all(cont, bad) is FALSE, "an invalid value for %s does not end the reading" % f)
    return enum, by, absent


def names_of(c, crate, enum):
    """name -> key variant; and what other names give"""
    rs = [r for r in visitor(c, crate, "visit_str", enum)]
    decided(len(rs) == 1, "%d name readers of %s" % (len(rs), enum))
    ret = rs[0].ret
    inp = None
    lits = {}
    for a in atoms(ret):
        decided(a.op == "eq", "names are told apart by %s" % show(a, 4))
        s = [x for x in a.args if x.op == "str"]
        o = [x for x in a.args if x.op != "str"]
        decided(len(s) == 1 and len(o) == 1 and o[0].op == "par", "name compared by %s" % show(a, 4))
        inp = o[0]
        lits[s[0].args[0]] = None
    for n in list(lits):
        t = subst(ret, {inp: STR(n)})
        if t.op == "adt" and t.args[1] == "Ok":
            lits[n] = field(t, "0", "Ok").args[1]
        else:
            del lits[n]
    other = subst(ret, {inp: STR("\0no such name\0")}) if inp is not None else ret
    return lits, other


def read_seq(c, r, adt):
    """field -> position among the elements read, and what is used when absent"""
    val = okfield(r.ret)
    fs, absent = {}, {}
    for leaf in leaves(val):
        decided(leaf.op == "adt" and leaf.args[0] == adt, "reading gives %s" % show(leaf, 4))
    ok = isv(r.ret, RESULT, "Ok")
    for f, _ in leaves(val)[0].args[2]:
        v = field(val, f)
        els = {u for u in subterms(v) if u.op == "call" and u.args[0].startswith("SeqAccess::next_element")}
        top = [u for u in els if not any(w_ is not u and u in set(subterms(w_)) for w_ in els)]
        decided(len(top) == 1, "%s is %s" % (f, show(v, 4)))
        n, t = 0, top[0].args[1]
        while t.op == "mut":
            n, t = n + 1, t.args[2][0]
        fs[f] = n
        there = isv(field(top[0], "0", "Ok"), OPTION, "Some")
        good = assume_all(assume_all(v, isv(top[0], RESULT, "Ok")), there)
        same(good, field(field(top[0], "0", "Ok"), "0", "Some"), "element %s" % f)
        require(assume_all(ok, isv(top[0], RESULT, "Err")) is FALSE, "an invalid %s is accepted" % f)
        absent[f] = "required" if assume_all(ok, NOT(there)) is FALSE else assume_all(v, NOT(there))
    return fs, absent


def written(c, crate, name):
    """[(name, field)] in the order serialize writes them"""
    for k in c.w().fns:
        f = c.w().fns[k]
        if f.crate != crate or "promoted" in k or not k.endswith("::serialize"):
            continue
        r = analyse(k)
        if not any(u.op == "call" and u.args[0] == "Serializer::serialize_struct" and u.args[2] is STR(name) for u in subterms(r.ret)):
            continue
        c.functions.add(k)
        t = r.ret
        for a in list(atoms(t)):
            if a.op == "is" and a.args[1] == RESULT:
                t = assume(t, a, a.args[2] == "Ok")
        decided(t.op == "call" and t.args[0] == "SerializeStruct::end", "serializing %s ends with %s" % (name, show(t, 3)))
        out = []
        t = t.args[1]
        while t.op == "mut":
            decided(t.args[0] == "SerializeStruct::serialize_field", "serializing %s uses %s" % (name, t.args[0]))
            a = t.args[2]
            decided(a[1].op == "str", "field name %s" % show(a[1], 3))
            out.append((a[1].args[0], a[2]))
            t = a[0]
        return out[::-1]
    raise Missing("serializer of %s" % name)


def struct(c, crate, name, required=(), deny=False, defaults=None):
    adt = adt_named(c, crate, name)

    def by_name():
        rs = visitor(c, crate, "visit_map", adt)
        decided(len(rs) == 1, "%d map readers of %s" % (len(rs), name))
        enum, by, absent = read_map(c, rs[0], adt)
        names, other = names_of(c, crate, enum)
        got = {n: by.get(v) for n, v in names.items()}
        for n, f in got.items():
            require(f is not None, "the setting %s is read but not stored" % n)
            require(n == f, "the setting %s is stored in %s" % (n, f))
        for f in absent:
            require(f in got, "no setting is stored in %s" % f)
        if deny:
            require(other.op == "adt" and other.args[1] == "Err", "an unknown setting is not rejected: %s" % show(other, 3))
        for f in required:
            require(absent[f] == "required", "%s may be missing" % f)
        for f, want in (defaults or {}).items():
            require(absent[f] != "required", "%s may not be left out" % f)
            same(absent[f], want, "default of %s" % f)
        return "%s" % sorted(got)

    def by_position():
        rs = visitor(c, crate, "visit_seq", adt)
        decided(len(rs) == 1, "%d sequence readers of %s" % (len(rs), name))
        fs, absent = read_seq(c, rs[0], adt)
        ws = written(c, crate, name)
        for i, (n, v) in enumerate(ws):
            f = [g for g, p in fs.items() if p == i]
            require(len(f) == 1, "element %d written as %s is read into %s" % (i, n, f))
            same(v, field(SELF, f[0]), "element %d" % i)
        for f in required:
            require(absent[f] == "required", "%s may be missing" % f)
        return str(fs)

    def written_names():
        ws = written(c, crate, name)
        for n, v in ws:
            same(v, field(SELF, n), "value written as %s" % n)
        fs = [f["name"] for a in c.w().adts.values() if a and a.get("key") == adt for f in a["variants"][0]["fields"]]
        require({n for n, _ in ws} == set(fs), "fields %s are written as %s" % (fs, [n for n, _ in ws]))
        return "%d fields" % len(ws)

    c.ob("%s: settings by name" % name, by_name)
    c.ob("%s: settings by position" % name, by_position)
    c.ob("%s: settings written" % name, written_names)


def loaders(c, *names):
    out = []
    for n in names:
        out += [k for k in c.w().find(n) if "promoted" not in k]
        if not out:
            raise Missing("function %s" % n)
    return tuple(out)


def check(c):
    c.w()
    from .c09 import enum_named
    mode = enum_named("Mode")
    normal = mk("adt", mode, "Normal", ())
    none = mk("adt", OPTION, "None", ())
    struct(c, "lindera_tokenizer", "TokenizerConfig", required=("dictionary",), deny=True, defaults=dict(mode=normal, user_dictionary=none))
    struct(c, "lindera_dictionary", "DictionaryConfig")
    struct(c, "lindera_dictionary", "UserDictionaryConfig")
    struct(c, "lindera_core", "Penalty")

    def default_config():
        t = c.analyse("TokenizerConfig::default", crate="lindera_tokenizer").ret
        same(field(t, "mode"), normal, "default mode")
        same(field(t, "user_dictionary"), none, "default user dictionary")
        return "normal mode, no user dictionary"

    def tokenizer():
        op = loaders(c, "DictionaryLoader::load_dictionary_from_config", "DictionaryLoader::load_user_dictionary_from_config")
        r = c.analyse("Tokenizer::from_config", crate="lindera_tokenizer", opaque=op)
        cfg = mk("par", [n for n in fn_params(c, r.key) if n][0])
        t = okfield(r.ret)
        d = mk("call", "DictionaryLoader::load_dictionary_from_config", field(cfg, "dictionary"))
        same(field(t, "dictionary"), field(d, "0", "Ok"), "dictionary of the tokenizer")
        u = field(cfg, "user_dictionary")
        some = isv(u, OPTION, "Some")
        ud = mk("call", "DictionaryLoader::load_user_dictionary_from_config", field(u, "0", "Some"))
        same(assume_all(field(t, "user_dictionary"), some), mk("adt", OPTION, "Some", (("0", field(ud, "0", "Ok")),)), "user dictionary of the tokenizer")
        same(assume_all(field(t, "user_dictionary"), NOT(some)), none, "user dictionary of the tokenizer when none is configured")
        same(field(t, "mode"), field(cfg, "mode"), "mode of the tokenizer")
        n = errors_returned(r.ret)
        return "every part; %d failures returned" % n

    def tokenizer_new():
        r = c.analyse("Tokenizer::new", crate="lindera_tokenizer")
        ps = fn_params(c, r.key)
        for i, p in enumerate(ps):
            f = [x for x in ("dictionary", "user_dictionary", "mode") if field(r.ret, x) is mk("par", p)]
            require(len(f) == 1, "argument %s of Tokenizer::new is stored in %s" % (p, f))
        return "three parts"

    def filters(r, t, cfg, what, loader):
        arr = mk("call", "Value::as_array", index(field(cfg, "inner"), STR(what)))
        some = isv(arr, OPTION, "Some")
        src = field(arr, "0", "Some")
        t = field(t, what)
        full = assume_all(t, some)
        if full.op == "fin" and inserted_in_front(r, full.args[0]):
            raise Violated("the %s are in the opposite order" % what)
        for g, v in paths(full):
            if v.op == "arr" and not v.args:
                odd = [a for a in atoms(g) if unresolved(a) is not None]
                decided(not odd, "%s are left out if %s" % (what, show(g, 4)))
                require(AND(g, NOT(as_bool(zero(length(src))))) is FALSE, "%s are left out if %s" % (what, show(g, 5)))
                continue
            decided(v.op == "coll", "%s are %s" % (what, show(v, 4)))
            L, body = v.args
            decided(L.op == "L" and L.args[0].op in ("over", "range"), "%s are collected over %s" % (what, show(L, 4)))
            if L.args[0].op == "over":
                same(L.args[0].args[0], src, "%s built from" % what)
            else:
                same(L.args[0].args[0], INT(0), "first of the %s" % what)
                same(L.args[0].args[1], length(src), "number of the %s" % what)
            x = index(src, mk("k", L))
            kind = mk("call", "Value::as_str", index(x, STR("kind")))
            b = assume_all(members(body, ("kind",)), isv(kind, OPTION, "Some"))
            for u in sorted({u for u in subterms(b) if u.op == "call" and u.args[0] in ("Value::get", "Map::get")}, key=lambda u: show(u, 6)):
                no = assume_all(b, NOT(isv(u, OPTION, "Some")))
                require(no.op != "seq" or no.args, "an entry of %s is left out if there is no %s" % (what, show(u.args[2], 3)))
            b = members(b)
            call = mk("call", loader, field(kind, "0", "Some"), index(x, STR("args")))
            same(b, mk("seq", mk("it", field(call, "0", "Ok"))), "filter built from an entry of %s" % what,
                 extra_vocab={"Value::is_null", "Value::is_object", "Value::is_array", "Value::is_string"})
        e = assume_all(t, NOT(some))
        if e.op == "coll":
            return      # a loop over no entries
        require(e.op == "arr" and not e.args, "without %s the filters are %s" % (what, show(e, 3)))

    def paths(t, g=TRUE):
        """(condition, value) of each leaf"""
        if t.op != "cond":
            return [(g, t)]
        return paths(t.args[1], AND(g, t.args[0])) + paths(t.args[2], AND(g, NOT(t.args[0])))

    def members(t, names=None):
        """get(name) of a JSON value is the value under that name, or nothing can be read from it"""
        gets = {u for u in subterms(t) if u.op == "call" and u.args[0] in ("Value::get", "Map::get") and
                (names is None or u.args[2] in [STR(n) for n in names])}
        for u in gets:
            t = assume_all(t, isv(u, OPTION, "Some"))
        m = {field(u, "0", "Some"): index(u.args[1], u.args[2]) for u in gets}
        return subst(t, m) if m else t

    def analyzer():
        op = loaders(c, "Tokenizer::from_config", "CharacterFilterLoader::load_from_value", "TokenFilterLoader::load_from_value")
        r = c.analyse("Analyzer::from_config", crate="lindera_analyzer", opaque=op)
        cfg = mk("par", [n for n in fn_params(c, r.key) if n][0])
        t = okfield(members(r.ret, ("character_filters", "token_filters", "tokenizer")))
        filters(r, t, cfg, "character_filters", "CharacterFilterLoader::load_from_value")
        filters(r, t, cfg, "token_filters", "TokenFilterLoader::load_from_value")
        tk = field(t, "tokenizer")
        calls = [u for u in subterms(tk) if u.op == "call" and u.args[0] == "Tokenizer::from_config"]
        decided(len(calls) == 1 and tk is field(calls[0], "0", "Ok"), "tokenizer is %s" % show(tk, 4))
        want = index(field(cfg, "inner"), STR("tokenizer"))
        src = {u for u in subterms(calls[0]) if u.op == want.op and u.args[0] is field(cfg, "inner")}
        require(src == {want}, "the tokenizer is configured from %s" % [show(u, 4) for u in src])
        n = errors_returned(r.ret)
        full = r.ret
        for what in ("character_filters", "token_filters"):
            full = assume_all(full, isv(mk("call", "Value::as_array", index(field(cfg, "inner"), STR(what))), OPTION, "Some"))
        inner = [a for a in atoms(full) if a.op == "exists"]
        for a in inner:
            ok = isv(assume(full, a, True), RESULT, "Ok")
            require(ok is FALSE, "an invalid filter does not make the construction fail")
        fails = {u for u in subterms(r.ret) if u.op == "is" and u.args[1] == RESULT and u.args[0].op == "call" and u.args[0].args[0].endswith("load_from_value")}
        require(len(fails) >= 2 or not inner, "failures of filter loading are not looked at")
        return "every part; %d failures returned" % (n + len(inner))

    def analyzer_new():
        r = c.analyse("Analyzer::new", crate="lindera_analyzer")
        for p in fn_params(c, r.key):
            f = [x for x in ("character_filters", "tokenizer", "token_filters") if field(r.ret, x) is mk("par", p)]
            require(len(f) == 1, "argument %s of Analyzer::new is stored in %s" % (p, f))
            tn = p if p in ("character_filters", "tokenizer", "token_filters") else f[0]
            require(tn == f[0], "argument %s of Analyzer::new is stored in %s" % (p, f[0]))
        return "three parts"

    def sources():
        r = c.analyse("AnalyzerConfig::from_slice", crate="lindera_analyzer")
        p = mk("par", [n for n in fn_params(c, r.key) if n][0])
        v = field(okfield(r.ret), "inner")
        for u in subterms(r.ret):
            if u.op == "call" and u.args[0].startswith("serde_json::from_"):
                bad = assume_all(isv(r.ret, RESULT, "Ok"), isv(u, RESULT, "Err"))
                require(bad is FALSE, "a text that is not JSON is accepted")
        decided(v.op == "f" and v.args[0].op == "call" and v.args[0].args[0].startswith("serde_json::from_slice"), "configuration is %s" % show(v, 4))
        same(v.args[0].args[1], p, "text of the configuration")
        r2 = c.analyse("AnalyzerConfig::from_file", crate="lindera_analyzer")
        p2 = mk("par", [n for n in fn_params(c, r2.key) if n][0])
        v2 = field(okfield(r2.ret), "inner")
        rd = {u for u in subterms(v2) if u.op == "call" and u.args[0] in ("fs::read", "fs::read_to_string", "File::open")}
        decided(len(rd) == 1, "configuration file read by %s" % [show(u, 3) for u in rd])
        same(list(rd)[0].args[1], p2, "configuration file read")
        errors_returned(r.ret)
        errors_returned(r2.ret)
        return "whole text, whole file"

    c.ob("default configuration", default_config)
    c.ob("Tokenizer::from_config", tokenizer)
    c.ob("Tokenizer::new", tokenizer_new)
    c.ob("Analyzer::from_config", analyzer)
    c.ob("Analyzer::new", analyzer_new)
    c.ob("AnalyzerConfig sources", sources)
