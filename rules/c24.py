"""C24. The two selection functions of the dictionary loader are reduced to decision diagrams over
the file extension, the kind and the path of the configuration. The rule, case by case: extension
csv and no kind - error; csv and a kind - the user dictionary built from the given path by the
builder that resolve_builder selects for that kind; bin - the user dictionary deserialized from the
whole file at the given path; any other extension, none, or one that is not text - error. For the
system dictionary: a kind - exactly what loading that kind gives, whatever the path; no kind and a
path - exactly what loading that directory gives; neither - error. Failures of each are returned."""
from .common import *
from .c09 import enum_named

ASSUMES = ["Path::extension and OsStr::to_str behave as documented"]


def check(c):
    c.w()

    def user_dict():
        r = c.analyse("DictionaryLoader::load_user_dictionary_from_config")
        enum = enum_named("DictionaryKind")
        cfg = mk("par", [n for n in fn_params(c, r.key) if n][0])
        path, kind = field(cfg, "path"), field(cfg, "kind")
        lits, miss = {}, []
        for a in atoms(r.ret):
            if not any(u.op == "call" and u.args[0] == "Path::extension" for u in subterms(a)):
                continue
            if any(u.op == "call" and u.args[0].startswith(("DictionaryBuilder::", "bincode", "fs::")) for u in subterms(a)):
                continue
            if a.op == "eq":
                s = [x for x in a.args if x.op == "str"]
                o = [x for x in a.args if x.op != "str"]
                decided(len(s) == 1 and len(o) == 1, "extension compared by %s" % show(a, 4))
                lits[s[0].args[0]] = o[0]
            elif a.op == "is":
                miss.append(a)
            else:
                raise Undecided("file type decided by %s" % show(a, 4))
        decided(lits, "the file type is not decided by comparing the extension")
        require(set(lits) == {"csv", "bin"}, "the file types accepted are %s" % sorted(lits))
        for o in lits.values():
            require(path in set(subterms(o)), "the extension looked at is %s" % show(o, 4))
        present = r.ret
        for a in miss:
            if present.op == "cond":
                always_err(assume_all(present, a if a.args[2] in ("None", "Err") else NOT(a)), "a path without extension")
                present = assume_all(present, a if a.args[2] in ("Some", "Ok") else NOT(a))
        by = {}
        for e in ("csv", "bin", "\0other"):
            t = present
            for lit, o in lits.items():
                t = assume_all(t, mk("eq", *[x for x in norm_eq(r.ret, lit)]) if lit == e else NOT(mk("eq", *norm_eq(r.ret, lit))))
            by[e] = t
        always_err(by["\0other"], "a file of another type")
        none = assume_all(by["csv"], NOT(isv(kind, OPTION, "Some")))
        always_err(none, "a csv file without a kind")
        some = assume_all(by["csv"], isv(kind, OPTION, "Some"))
        rb = c.analyse("DictionaryBuilderResolver::resolve_builder")
        rp = mk("par", [n for n in fn_params(c, rb.key) if n][-1])
        k = field(kind, "0", "Some")
        for v in VARIANTS[enum]:
            t = variant(some, k, enum, v)
            b = okfield(variant(rb.ret, rp, enum, v))
            decided(b.op == "adt", "builder of %s is %s" % (v, show(b, 4)))
            calls = {u for u in subterms(t) if u.op == "call" and u.args[0].endswith("::build_user_dict")}
            decided(len(calls) == 1, "a csv file of kind %s is read by %s" % (v, [show(u, 4) for u in calls]))
            call = calls.pop()
            same(call.args[1], b, "builder of a csv user dictionary of kind %s" % v)
            same(call.args[2], path, "source of a csv user dictionary")
            same_result(t, call, "csv user dictionary of kind %s" % v)
        t = by["bin"]
        ok = isv(t, RESULT, "Ok")
        require(not contains(ok, kind), "whether a bin file is accepted depends on the kind")
        d = okfield(t)
        decided(d.op == "f" and d.args[0].op == "call", "a bin file gives %s" % show(d, 5))
        require(d.args[0].args[0].startswith("bincode::deserialize<") and "UserDictionary>" in d.args[0].args[0],
                "a bin file is read by %s" % d.args[0].args[0])
        src = d.args[0].args[1]
        while src.op == "f" or src.op == "call" and src.args[0].startswith("io_read:"):
            if src.op == "call" and src.args[0] not in ("io_read:read_to_end",):
                raise Undecided("bin data read by %s" % src.args[0])
            src = src.args[-1] if src.op == "call" else src.args[0]
        decided(src.op == "call" and src.args[0] in ("fs::read", "File::open"), "bin data is %s" % show(src, 4))
        same(src.args[1], path, "source of a bin user dictionary")
        errors_returned(r.ret)
        ps = [p for p in r.panics if p.kind == "unwrap"]
        require(not ps, "panic at %s" % [p.span for p in ps])
        return "csv: builder of the kind; bin: deserialized; others rejected"

    def system_dict():
        r = c.analyse("DictionaryLoader::load_dictionary_from_config")
        enum = enum_named("DictionaryKind")
        cfg = mk("par", [n for n in fn_params(c, r.key) if n][0])
        path, kind = field(cfg, "path"), field(cfg, "kind")
        ks, ps = isv(kind, OPTION, "Some"), isv(path, OPTION, "Some")
        rk = c.analyse("DictionaryLoader::load_dictionary_from_kind")
        rp = c.analyse("DictionaryLoader::load_dictionary")
        kp = mk("par", [n for n in fn_params(c, rk.key) if n][0])
        pp_ = mk("par", [n for n in fn_params(c, rp.key) if n][0])
        a = assume_all(r.ret, ks)
        require(not contains(a, path), "what is loaded for a kind depends on the path")
        for v in VARIANTS[enum]:
            k = field(kind, "0", "Some")
            same_result(variant(a, k, enum, v), variant(subst(rk.ret, {kp: k}), k, enum, v), "dictionary of kind %s" % v)
        b = assume_all(r.ret, NOT(ks))
        same_result(assume_all(b, ps), subst(rp.ret, {pp_: field(path, "0", "Some")}), "dictionary from a path")
        always_err(assume_all(b, NOT(ps)), "a configuration with neither kind nor path")
        errors_returned(r.ret)
        return "kind, else path, else error"

    def norm_eq(t, lit):
        for a in atoms(t):
            if a.op == "eq" and any(x.op == "str" and x.args[0] == lit for x in a.args):
                return a.args
        raise Undecided("extension %s" % lit)

    c.ob("user dictionary", user_dict)
    c.ob("system dictionary", system_dict)
