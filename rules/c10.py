"""C10. The two loaders are reduced to a decision diagram over the kind name and read as a table
from name to the filter type constructed; the name every implementation of the filter traits
reports is derived from its name() method. The rule: the two tables are equal, names are unique,
any other name is an error; the constructed filter uses only the settings value it was given;
every test of the settings (deserialization, type tests of a JSON value) that fails leads to an
error; loading from a flag is loading with the part before the colon as name and the rest (or an
empty object) as settings; from_slice and from_value of a configuration agree; every derived
configuration field is read from, and written under, its own name."""
import re
from .common import *

ASSUMES = ["serde and serde_json implement (de)serialization of the derived types as documented"]
FACETS = [("CharacterFilter", "CharacterFilterLoader", 4), ("TokenFilter", "TokenFilterLoader", 17)]
NO = STR("\0no such name\0")
TYPE_TESTS = {"Value::as_array", "Value::as_str", "Value::as_object", "Value::as_bool", "Value::as_u64", "Value::as_i64", "Value::as_f64"}


def leaf_ok(t):
    return [l for l in leaves(t) if not (l.op == "adt" and l.args[0] == RESULT and l.args[1] == "Err")]


def has_value_test(a):
    """test that a JSON value has the type that is wanted: (term tested, polarity that means it has)"""
    if a.op == "is" and a.args[1] == OPTION and a.args[0].op == "call" and a.args[0].args[0] in TYPE_TESTS:
        return a.args[0].args[1], a.args[2] == "Some"
    if a.op == "b" and isT(a.args[0]):
        a = a.args[0]
    if a.op == "call" and a.args[0].startswith("Value::is_") and a.args[0] != "Value::is_null":
        return a.args[1], True
    return None


def settings_checked(ret):
    """every failing test of the settings makes the result an error; their number"""
    n = errors_returned(ret)
    top = set(atoms(ret))
    for l in leaf_ok(ret):
        for u in subterms(l):
            if u.op == "cond":
                a = u.args[0]
                if a not in top and a.op == "is" and a.args[1] == RESULT and a.args[0].op == "call" and a.args[0].args[0].startswith("serde_json::from_"):
                    raise Violated("settings that cannot be read are replaced: %s" % show(u, 4))
    for a in set(atoms(ret)):
        h = has_value_test(a)
        if h is not None:
            v, polarity = h
            t = assume(ret, a, not polarity)
            g = assume(ret, a, polarity)
            for b in set(atoms(ret)):
                u = b.args[0] if b.op == "b" and isT(b.args[0]) else b
                if u.op == "call" and u.args[0] == "Value::is_null" and u.args[1] is v:
                    t, g = assume(t, b, False), assume(g, b, False)
                if u.op == "is" and u.args[1] == OPTION and u.args[0].op == "call" and u.args[0].args[0] == "Value::get" and \
                        v.op == "f" and v.args[0] is u.args[0]:
                    some = u.args[2] == "Some"
                    t, g = assume(t, b, some), assume(g, b, some)
            if t is g:
                continue
            n += 1
            for p in leaves(tm.hoisted(lambda x, y: mk("pair", x, y), [t, g])):
                x, y = p.args
                if x is not y and not (x.op == "adt" and x.args[0] == RESULT and x.args[1] == "Err") :
                    raise Violated("a setting of another type than expected (%s fails) is accepted" % show(a, 4))
        elif a.op == "exists":
            inner = [u for u in subterms(a.args[1]) if u.op == "is" and
                     (u.args[1] == RESULT or has_value_test(u) is not None)]
            if inner:
                n += 1
                if any(x for x in leaf_ok(assume(ret, a, True)) if x not in leaf_ok(assume(ret, a, False))) or \
                        assume(ret, a, True) is assume(ret, a, False):
                    raise Violated("an element of another type than expected is accepted")
    return n


def canon_adt(w, imp):
    return w.adt_key(strip_refs(ty_s(imp["self"])).split("<")[0], imp["crate"])


def check(c):
    w = c.w()
    for trait, loader, least in FACETS:
        impls = [i for i in w.impls if "trait" in i and i["trait"].split("::")[-1] == trait and i["crate"] == "lindera_filter"]
        names, table = {}, {}

        def reported():
            for i in impls:
                ks = [it["key"] for it in i["items"] if it["name"] == "name"]
                decided(len(ks) == 1, "name() of %s" % ty_s(i["self"]))
                r = analyse(ks[0])
                c.functions.update(r.visited | {ks[0]})
                decided(r.ret.op == "str", "name() of %s is %s" % (ty_s(i["self"]), show(r.ret, 4)))
                n = r.ret.args[0]
                t = canon_adt(w, i)
                require(n not in names, "%s and %s both report the name %r" % (names.get(n), t, n))
                names[n] = t
            return str(sorted(names))

        def loaded():
            r = c.analyse(loader + "::load_from_value", crate="lindera_filter")
            kind = mk("par", fn_params(c, r.key)[0])
            val = mk("par", fn_params(c, r.key)[1])
            cand = {x.args[0] for a in subterms(r.ret) if a.op == "eq" and any(y is kind for y in a.args) for x in a.args if isT(x) and x.op == "str"}
            decided(bool(cand), "loader chooses by %s" % [show(a, 3) for a in atoms(r.ret)][:4])
            for n in sorted(cand | set(names)):
                t = subst(r.ret, {kind: STR(n)})
                oks = set()
                if leaf_ok(t):
                    for b in leaves(okfield(t)):
                        decided(b.op == "adt", "loading %r gives %s" % (n, show(b, 4)))
                        x = field(b, "0")
                        while x.op == "call" and x.args[0] in ("Box::new",):
                            x = x.args[1]
                        for f in leaves(x):
                            decided(f.op == "adt", "loading %r gives %s" % (n, show(f, 4)))
                            oks.add(f.args[0])
                if n in names:
                    require(oks, "the filter %r cannot be loaded" % n)
                require(len(oks) <= 1, "loading %r gives one of %s" % (n, sorted(oks)))
                if oks:
                    table[n] = oks.pop()
                    bad = [u for u in subterms(t) if u.op == "call" and (u.args[0].startswith("serde_json::from_") and u.args[1] is not val)]
                    require(not bad, "the settings of %r are read from %s" % (n, [show(u.args[1], 4) for u in bad]))
            t = subst(r.ret, {kind: NO})
            require(not leaf_ok(t), "an unknown name gives %s" % show(t, 4))
            miss = set(names) ^ set(table)
            require(not miss, "names reported and names loadable differ in %s" % sorted(miss))
            for n in names:
                require(names[n] == table[n], "%r is reported by %s but the loader builds %s" % (n, names[n], table[n]))
            return "%d filters" % len(names)

        def flag():
            lv = c.fn(loader + "::load_from_value", crate="lindera_filter")
            r = c.analyse(loader + "::load_from_cli_flag", crate="lindera_filter", opaque=(lv,))
            p = mk("par", fn_params(c, r.key)[0])
            calls = {u for u in subterms(r.ret) if u.op == "call" and u.args[0].endswith("load_from_value")}
            decided(calls, "flag loaded by %s" % show(r.ret, 5))
            sp = [u for u in subterms(r.ret) if u.op == "call" and u.args[0] in ("str::split_once",)]
            decided(len(set(sp)) == 1 and sp[0].args[1] is p, "flag split by %s" % [show(x, 3) for x in sp])
            require(sp[0].args[2] in (INT(58), STR(":")), "flag split at %s" % show(sp[0].args[2]))
            some = isv(sp[0], OPTION, "Some")
            for have, kind, js in ((True, field(field(sp[0], "0", "Some"), "0"), field(field(sp[0], "0", "Some"), "1")), (False, p, STR("{}"))):
                t = assume_all(r.ret, some if have else NOT(some))
                got = {u for u in subterms(t) if u.op == "call" and u in calls} or \
                    {assume_all(u, some if have else NOT(some)) for u in calls}
                for u in got:
                    k, v = u.args[1], u.args[2]
                    k, v = assume_all(k, some if have else NOT(some)), assume_all(v, some if have else NOT(some))
                    same(k, kind, "name taken from a flag %s a colon" % ("with" if have else "without"))
                    src = [x for x in subterms(v) if x.op == "call" and x.args[0].startswith("serde_json::from_str")]
                    decided(len(src) == 1, "settings of a flag: %s" % show(v, 4))
                    same(src[0].args[1], js, "settings taken from a flag %s a colon" % ("with" if have else "without"))
            errors_returned(r.ret)
            return "kind and settings"

        def settings():
            r = c.analyse(loader + "::load_from_value", crate="lindera_filter")
            kind = mk("par", fn_params(c, r.key)[0])
            n = 0
            for nm in sorted(names):
                n += settings_checked(subst(r.ret, {kind: STR(nm)}))
            require(n >= 1, "no test of the settings found")
            return "%d tests" % n

        if c.ob(trait + " names", reported):
            c.ob(trait + " loader", loaded)
            c.ob(trait + " settings errors", settings)
        c.ob(trait + " flags", flag)
        c.floor(trait + " implementations", len(impls), least)

    # configurations
    cfgs = sorted({k.rsplit("::", 1)[0] for k in w.fns if w.fns[k].crate == "lindera_filter" and k.endswith("::from_value") and
                   (w.fns[k].d.get("impl_self") or "").endswith("Config")})

    def siblings(imp):
        def go():
            s, v = imp + "::from_slice", imp + "::from_value"
            if s not in w.fns:
                return "no from_slice"
            a, b = analyse(s), analyse(v)
            c.functions.update({s, v} | a.visited | b.visited)
            ps, pv = mk("par", fn_params(c, s)[0]), mk("par", fn_params(c, v)[0])
            # reading the text and then the value is reading the value
            m = {}
            for u in subterms(a.ret):
                if u.op == "call" and u.args[0].startswith("serde_json::from_slice<") and u.args[1] is ps:
                    ty = u.args[0][len("serde_json::from_slice<"):-1]
                    if ty.split("::")[-1] == "Value":
                        m[u] = mk("adt", RESULT, "Ok", (("0", pv),))
                    else:
                        m[u] = mk("call", "serde_json::from_value<%s>" % ty, pv)
            decided(bool(m), "from_slice reads %s" % sorted(vocab(a.ret)))
            x, y = subst(a.ret, m), b.ret
            x, y = assume_ok(x), assume_ok(y)
            same(x, y, "settings read from text and from a value")
            return "agree"
        return go

    def assume_ok(t):
        return tm.maptree(t, lambda l: STR("error") if l.op == "adt" and l.args[0] == RESULT and l.args[1] == "Err" else l) \
            if t.op == "cond" else t

    for imp in cfgs:
        c.ob("from_slice and from_value of " + (w.fns[imp + "::from_value"].d.get("impl_self") or imp).split("::")[-1], siblings(imp))
    c.floor("filter configurations", len(cfgs), 17)

    def fields_written(k, ty):
        def go():
            r = analyse(k)
            c.functions.add(k)
            n = 0
            for u in subterms(r.ret):
                if u.op == "call" and u.args[0] == "SerializeStruct::serialize_field":
                    nm, val = u.args[2], u.args[3]
                    decided(nm.op == "str" and val.op == "f", "field written by %s" % show(u, 5))
                    require(val.args[2] == nm.args[0], "the setting %s is written as %r" % (val.args[2], nm.args[0]))
                    n += 1
            a = w.adts.get("lindera_filter::" + ty)
            decided(a is not None, "no type")
            decl = [f["name"] for f in a["variants"][0]["fields"]]
            require(n == len(decl), "%d of %d settings are written" % (n, len(decl)))
            return ", ".join(decl)
        return go

    def fields_read(mod, ty):
        def go():
            vm = [k for k in w.fns if k.startswith(mod) and k.endswith("::visit_map")]
            vs = [k for k in w.fns if k.startswith(mod) and k.endswith("::visit_str")]
            decided(len(vm) == 1 and len(vs) == 1, "derived visitor")
            r, s = analyse(vm[0]), analyse(vs[0])
            c.functions.update({vm[0], vs[0]})
            inp = mk("par", fn_params(c, vs[0])[1] if fn_params(c, vs[0])[0] == "self" else fn_params(c, vs[0])[0])
            nm = {}
            for u in atoms(s.ret):
                if u.op == "eq":
                    lit = [x for x in u.args if isT(x) and x.op == "str"][0]
                    t = subst(s.ret, {inp: lit})
                    f = field(t, "0", "Ok")
                    decided(f.op == "adt", "key %s" % show(lit))
                    nm.setdefault(f.args[1], set()).add(lit.args[0])
            a = w.adts.get("lindera_filter::" + ty)
            built = [u for u in subterms(r.ret) if u.op == "adt" and u.args[0] == "lindera_filter::" + ty]
            decided(built, "visitor builds %s" % show(r.ret, 3))
            for b in built:
                for fname, v in b.args[2]:
                    src = {re.sub(r"^.*?(__field\d+)$", r"\1", str(u.args[-1])) for u in subterms(v) if u.op == "mu"}
                    src = {x for x in src if x.startswith("__field")}
                    if not src:
                        src = {x for x in (("__field" + m.group(1)) for m in re.finditer(r"__field(\d+)", show(v, 12)))}
                    decided(len(src) <= 1, "setting %s is built from %s" % (fname, sorted(src)))
                    require(src, "the setting %s is not read" % fname)
                    keys = nm.get(next(iter(src)), set())
                    require(fname in keys, "the setting %s is read from the key %s" % (fname, sorted(keys)))
            return str(sorted(x for y in nm.values() for x in y))
        return go

    for k in sorted(w.fns):
        f = w.fns[k]
        if f.crate != "lindera_filter" or "promoted" in k:
            continue
        if k.endswith("::serialize") and (f.d.get("impl_self") or "").endswith("Config"):
            c.ob("settings written by " + f.d["impl_self"].split("::")[-1], fields_written(k, f.d["impl_self"]))
        if re.search(r"::_(#\d+)?::\{impl#0\}::deserialize$", k) and (f.d.get("impl_self") or "").endswith("Config"):
            c.ob("settings read by " + f.d["impl_self"].split("::")[-1], fields_read(k, f.d["impl_self"]))
