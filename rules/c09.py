"""C09. Every function that turns a name into a variant or a variant into a name or a component
(as_str, from_str, the derived serializer and deserializer, resolve_builder,
load_dictionary_from_kind, contained_variants) is reduced to a decision diagram and read as a
table per variant. The rule: all tables of one type agree on the name of each variant, names are
distinct, any other text leads to an error, the builder type and the embedded files selected for a
variant are those of the dictionary of that name, and - in three subsets of the dictionary
features in which any two dictionaries differ - a dictionary is listed and loadable exactly if its
own feature is on."""
import re
from .common import *
from lintlib import dump

ASSUMES = ["strum's EnumIter yields every variant", "serde drives the derived visitors as documented"]


def by_variant(t, subject, enum):
    return {v: variant(t, subject, enum, v) for v in VARIANTS[enum]}


def enum_named(name):
    e = [n for n in VARIANTS if n.split("::")[-1] == name and n.startswith("lindera")]
    if len(e) > 1:
        e = [n for n in e if not n.startswith("lindera_cli::")]
    if not e:
        raise Missing("type %s" % name)
    decided(len(e) == 1, "type %s is ambiguous: %s" % (name, e))
    return e[0]


TESTS = {"str::starts_with": str.startswith, "str::ends_with": str.endswith, "str::contains": lambda a, b: b in a,
         "str::eq_ignore_ascii_case": lambda a, b: a.lower() == b.lower()}


def lenient(ret, inp):
    """a text that is not among the literals compared with, yet accepted by a looser test"""
    tests = [a for a in atoms(ret) if a.op == "call" and a.args[0] in TESTS and a.args[1] is inp and a.args[2].op == "str"]
    lits = {x.args[0] for a in atoms(ret) if a.op == "eq" for x in a.args if isT(x) and x.op == "str"}
    for l in sorted({a.args[2].args[0] for a in tests}):
        for text in (l + "-", "-" + l, l.upper()):
            if text in lits:
                continue
            t = ret
            for a in tests:
                t = assume(t, a, TESTS[a.args[0]](text, a.args[2].args[0]))
            t = subst(t, {inp: STR(text)})
            if t.op == "adt" and t.args[1] == "Ok":
                raise Violated("%r is accepted as a name" % text)


def parser_table(ret, enum, inp):
    """name -> variant of a function from a text to Result<enum>, and that others are errors"""
    names = set()
    lenient(ret, inp)
    for a in atoms(ret):
        if a.op == "eq":
            xs = [x for x in a.args if isT(x)]
            lit = [x for x in xs if x.op == "str"]
            decided(len(lit) == 1 and contains(a, inp), "name compared by %s" % show(a, 4))
            require(any(x is inp for x in xs), "the name is matched by %s, not by the text itself" % show(a, 4))
            names.add(lit[0].args[0])
        else:
            raise Undecided("parsing depends on %s" % show(a, 4))
    tab = {}
    for n in names:
        t = subst(ret, {inp: STR(n)})
        decided(t.op == "adt", "parsing %r gives %s" % (n, show(t, 4)))
        if t.args[1] == "Ok":
            v = field(t, "0", "Ok")
            decided(v.op == "adt" and v.args[0] == enum, "parsing %r gives %s" % (n, show(v, 4)))
            tab[n] = v.args[1]
    other = subst(ret, {inp: STR("\0no such name\0")})
    require(other.op == "adt" and other.args[1] == "Err", "an unknown name gives %s" % show(other, 4))
    return tab


def serde_tables(c, enum_name, crate):
    """(serialized name per variant, accepted name -> variant)"""
    w = c.w()
    ser, de = None, None
    for k in w.fns:
        f = w.fns[k]
        if f.crate != crate or "promoted" in k or "::_" not in k:
            continue
        if k.endswith("::serialize"):
            r = analyse(k)
            calls = {u for u in subterms(r.ret) if u.op == "call" and re.match(r"Serializer::serialize_\w+_variant$", u.args[0]) and
                     u.args[2] is STR(enum_name)}
            if calls:
                c.functions.add(k)
                ser = {}
                enum = enum_named(enum_name)
                for v, t in by_variant(r.ret, SELF, enum).items():
                    decided(t.op == "call" and t in calls, "serializing %s gives %s" % (v, show(t, 4)))
                    ser[v] = t.args[4].args[0]
        elif k.endswith("::visit_enum"):
            r = analyse(k)
            made = {u.args[0] for u in subterms(r.ret) if u.op == "adt"}
            enum = enum_named(enum_name)
            if enum not in made:
                continue
            c.functions.add(k)
            fld = {}
            for a in atoms(r.ret):
                if a.op == "is" and a.args[1] != RESULT:
                    fld.setdefault((a.args[0], a.args[1]), None)
            decided(len(fld) == 1, "deserializing chooses by %s" % [show(x[0], 3) for x in fld])
            (subj, fe) = next(iter(fld))
            tags = {a.args[2]: a for a in atoms(r.ret) if a.op == "is" and a.args[1] == fe}
            decided(all(re.match(r"(#|__field)\d+$", x) for x in tags), "fields %s" % sorted(tags))
            pos_ = {int(re.sub(r"\D", "", x)): a for x, a in tags.items()}
            ks = [x for x in w.fns if x.startswith(k.rsplit("::", 2)[0] + "::") and x.endswith("::visit_str")]
            decided(len(ks) == 1, "visit_str of %s" % k)
            vs = analyse(ks[0])
            c.functions.add(ks[0])
            inp = mk("par", "__value")
            de = {}
            idx = {}
            for i in range(len(VARIANTS[enum])):
                t = r.ret
                for j, a in pos_.items():
                    t = assume(t, a, i == j)
                got = {u.args[1] for u in subterms(t) if u.op == "adt" and u.args[0] == enum}
                decided(len(got) == 1, "visit_enum builds %s" % got)
                idx[i] = got.pop()
            for u in atoms(vs.ret):
                if u.op == "eq":
                    n = [x for x in u.args if isT(x) and x.op == "str"][0].args[0]
                    t = subst(vs.ret, {inp: STR(n)})
                    if t.op == "adt" and t.args[1] == "Ok":
                        f = field(t, "0", "Ok")
                        m = re.match(r"__field(\d+)$", f.args[1]) if f.op == "adt" else None
                        decided(m is not None, "field %s" % show(f, 3))
                        de[n] = idx[int(m.group(1))]
            other = subst(vs.ret, {inp: STR("\0no such name\0")})
            require(other.op == "adt" and other.args[1] == "Err", "an unknown name is deserialized to %s" % show(other, 4))
    decided(ser is not None and de is not None, "no (de)serializer of %s found" % enum_name)
    return ser, de


def fromstr(c, crate, of):
    ks = [k for k in c.w().fns if c.w().fns[k].crate == crate and k.endswith("::from_str") and "promoted" not in k]
    for k in ks:
        r = analyse(k)
        out = str(c.w().fns[k].locals[0].get("ty"))
        if any(u.op == "adt" and u.args[0] == of for u in subterms(r.ret)) or re.search(r"Result<(\w+::)*%s\b" % of.split("::")[-1], out):
            c.functions |= r.visited | {k}
            f = c.w().fns[k]
            return r, mk("par", f.locals[1].get("name"))
    raise Missing("from_str of %s in %s" % (of, crate))


def agree(what, tables):
    """tables: label -> {variant: name}"""
    labels = list(tables)
    vs = set().union(*[set(t) for t in tables.values()])
    for v in sorted(vs):
        ns = {l: tables[l].get(v) for l in labels}
        require(None not in ns.values(), "%s %s has no name in %s" % (what, v, [l for l in ns if ns[l] is None]))
        require(len({tuple(sorted(x)) if isinstance(x, set) else x for x in ns.values()}) == 1,
                "%s %s is named differently: %s" % (what, v, ns))
    for l in labels:
        xs = list(tables[l].values())
        require(len(set(xs)) == len(xs), "two %ss have one name in %s: %s" % (what, l, tables[l]))


def inverse(tab, what):
    out = {}
    for n, v in tab.items():
        require(v not in out, "%s: %s has the names %r and %r" % (what, v, out.get(v), n))
        out[v] = n
    return out


def check(c):
    c.w()
    st = {}

    def kinds():
        e = enum_named("DictionaryKind")
        st["e"] = e
        r = c.analyse("DictionaryKind::as_str", crate="lindera_dictionary") if [1 for k in c.w().find("DictionaryKind::as_str")] else \
            c.analyse("as_str", crate="lindera_dictionary")
        pr = {}
        for v, t in by_variant(r.ret, SELF, e).items():
            decided(t.op == "str", "name of %s is %s" % (v, show(t, 4)))
            pr[v] = t.args[0]
        fr, inp = fromstr(c, "lindera_dictionary", e)
        pa = inverse(parser_table(fr.ret, e, inp), "from_str")
        ser, de = serde_tables(c, "DictionaryKind", "lindera_dictionary")
        agree("dictionary", {"as_str": pr, "from_str": pa, "serialize": ser, "deserialize": inverse(de, "deserialize")})
        st["name"] = pr
        return str(pr)

    def modes():
        e = enum_named("Mode")
        fr, inp = fromstr(c, "lindera_core", e)
        pa = inverse(parser_table(fr.ret, e, inp), "from_str")
        ser, de = serde_tables(c, "Mode", "lindera_core")
        agree("mode", {"from_str": pa, "serialize": ser, "deserialize": inverse(de, "deserialize")})
        for v, n in pa.items():
            require(n.replace("_", "").lower() == v.lower(), "mode %s is named %s" % (v, n))
        return str(pa)

    def formats():
        e = enum_named("Format")
        fr, inp = fromstr(c, "lindera_cli", e)
        tab = parser_table(fr.ret, e, inp)
        pa = inverse(tab, "from_str")
        for v in VARIANTS[e]:
            require(v in pa, "format %s has no name" % v)
            require(pa[v].lower() == v.lower(), "format %s is named %s" % (v, pa[v]))
        return str(pa)

    def settings():
        out = []
        for en in ("UnicodeNormalizeKind", "KanaKind", "JapaneseKanaKind"):
            es = [n for n in VARIANTS if n.split("::")[-1] == en and n.startswith("lindera")]
            if not es:
                continue
            ser, de = serde_tables(c, en, "lindera_filter")
            agree(en, {"serialize": ser, "deserialize": inverse(de, "deserialize")})
            for v, n in ser.items():
                require(n.replace("_", "").lower() == v.lower(), "%s %s is named %s" % (en, v, n))
            out.append(en)
        decided(bool(out), "no setting enums")
        return str(out)

    def builders():
        r = c.analyse("resolve_builder", crate="lindera_dictionary")
        p = [u for u in subterms(r.ret) if u.op == "is" and u.args[1] == st["e"]]
        decided(p, "resolve_builder depends on %s" % [show(a, 3) for a in atoms(r.ret)])
        got = {}
        for v, t in by_variant(r.ret, p[0].args[0], st["e"]).items():
            require(t.op == "adt" and t.args[1] == "Ok", "no builder for %s: %s" % (v, show(t, 3)))
            b = field(t, "0", "Ok")
            decided(b.op == "adt", "builder of %s is %s" % (v, show(b, 4)))
            ty = b.args[0].split("::")[-1]
            got[v] = ty
        for v, ty in got.items():
            n = st["name"][v]
            same_ = [d for d in DICTS if "".join(x.capitalize() for x in d.split("-")) + "Builder" == ty]
            decided(len(same_) == 1, "builder type %s" % ty)
            require(same_[0] == n, "the dictionary named %s is built by %s" % (n, ty))
        return str(got)

    def embedded():
        r = c.analyse("load_dictionary_from_kind", crate="lindera_dictionary")
        check_embedded(r, set(DICTS))
        return "5 dictionaries"

    def check_embedded(r, on):
        p = [u for u in subterms(r.ret) if u.op == "is" and u.args[1] == st["e"]]
        decided(bool(p) or not on, "dictionary chosen by %s" % [show(a, 3) for a in atoms(r.ret)])
        for v, t in by_variant(r.ret, p[0].args[0], st["e"]).items():
            n = st["name"][v]
            fs = {u.args[0] for u in subterms(t) if u.op == "file"}
            dirs = {f.split("/")[-2] for f in fs}
            if n in on:
                decided(fs, "dictionary %s loads no embedded file" % n)
                require(dirs == {"lindera-" + n}, "the dictionary named %s is loaded from %s" % (n, sorted(dirs)))
            else:
                require(all(l.op == "adt" and l.args[1] == "Err" for l in leaves(t)),
                        "the dictionary %s, which is not contained, gives %s" % (n, show(t, 3)))

    def contained(cfg):
        def go():
            on = set(dump.CONFIGS[cfg].split(",")) & set(DICTS)
            k = c.fn("contained_variants", crate="lindera_dictionary", cfg=cfg)
            r = analyse(k, None, cfg)
            t = r.ret
            if t.op == "coll":
                L, body = t.args[0], t.args[1]
                decided(L.args[0].op == "over" and L.args[0].args[0].op == "call" and L.args[0].args[0].args[0] == "enum_iter" or
                        "enum_iter" in vocab(L), "variants listed by %s" % show(L, 4))
                it = index(L.args[0].args[0], mk("k", L))
                got = set()
                for v, b in by_variant(body, it, st["e"]).items():
                    decided(b.op == "seq", "%s is listed if %s" % (v, show(b, 4)))
                    if b.args:
                        require(len(b.args) == 1, "%s is listed %d times" % (v, len(b.args)))
                        got.add(st["name"][v])
            elif t.op == "call" and t.args[0] == "enum_iter":
                got = set(DICTS)
            elif t.op == "arr":
                got = {st["name"][x.args[1]] for x in t.args if x.op == "adt"}
            else:
                raise Undecided("list of dictionaries is %s" % show(t, 4))
            require(got == on, "with the features %s the dictionaries listed are %s" % (sorted(on), sorted(got)))
            k2 = c.fn("load_dictionary_from_kind", crate="lindera_dictionary", cfg=cfg)
            check_embedded(analyse(k2, None, cfg), on)
            return "%d contained" % len(on)
        return go

    if c.ob("dictionary names", kinds):
        c.ob("builders", builders)
        c.ob("embedded dictionaries", embedded)
        for cfg in ("default", "some1", "some2", "some3"):
            c.ob("contained dictionaries: " + cfg, contained(cfg))
        c.floor("dictionary kinds", len(st["name"]), 5)
    c.ob("mode names", modes)
    c.ob("format names", formats)
    c.ob("setting names", settings)
