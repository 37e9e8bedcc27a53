"""C08. For every file the dictionary builders write, the analysis derives name, directory and
content; the content decides the role (surface trie, entry table, details, index, matrix,
character definitions, unknown words). For the directory loader and the five embedded
dictionaries it derives which file each component is read from (include_bytes! arguments are
resolved to the file they name) and how it is read. The rule: every component comes from the
file whose content has its role, in every dictionary, with the same reading; with the compress
feature the same after one layer of decompression."""
from .common import *
from . import c11

EMBEDDED = ["lindera_ipadic", "lindera_ipadic_neologd", "lindera_unidic", "lindera_ko_dic", "lindera_cc_cedict"]
COMPONENT = {"dict.da": "trie", "dict.vals_data": "entries", "cost_matrix": "matrix", "char_definitions": "char definitions",
             "unknown_dictionary": "unknown words", "words_idx_data": "index", "words_data": "details"}


def role(its):
    """what a written file contains"""
    if len(its) == 1 and its[0].kind in ("bytes", "serialize"):
        v = its[0].val
        if any(u.op == "call" and u.args[0] == "DoubleArrayBuilder::build" for u in subterms(v)) and its[0].kind == "bytes":
            return "trie"
        if v.op == "adt" and its[0].kind == "serialize":
            n = v.args[0].split("::")[-1]
            return {"CharacterDefinitions": "char definitions", "UnknownDictionary": "unknown words"}.get(n)
    if len(its) == 1 and its[0].kind == "each":
        b = its[0].body
        if len(b) == 1 and b[0].kind == "each":
            return "entries"
        ks = [i.kind for i in b]
        if ks == ["u32"]:
            return "index"
        if ks == ["i16"]:
            return "matrix"
        if len(ks) == 2 and ks[1] == "bytes" and ks[0] in WIDTH:
            return "details"
    return None


def uncompressed(c, its):
    """items of the buffer inside the compressed container"""
    enum, vs = c11.variants(c)
    require(len(its) == 1 and its[0].kind == "serialize", "file is not a compressed container: %s" % its)
    v0 = its[0].val
    subj = {u.args[0] for u in subterms(v0) if u.op == "is" and u.args[1] == enum}
    d = v0
    for x in subj:
        d = variant(v0, x, enum, vs[0])
    require(d.op == "adt" and d.args[0].endswith("CompressedData"), "file is not a compressed container: %s" % show(d, 4))
    tag, data = compressed_parts(d, enum, subj)
    e = encoded(data)
    return bytes_of(e[1] if e else data)


def strip_decode(t, enum, vs, plain):
    """t with decompress(deserialize(file)) replaced by file"""
    subj = {u.args[0] for u in subterms(t) if u.op == "is" and u.args[1] == enum}
    v = vs[0]
    # every component is decompressed on its own: fix the algorithm of all to one variant
    for x in subj:
        t = subst_variant(t, x, enum, v)
    m = {}
    for u in subterms(t):
        e = decoded(u)
        if e is not None:
            src = e[1]
            if src.op == "f" and src.args[2] == "data":
                src = src.args[0]
                while src.op == "f" and src.args[1] == "Ok":
                    src = src.args[0]
                if src.op == "call" and "CompressedData" in src.args[0] and src.args[0].startswith("bincode::deserialize"):
                    m[u] = src.args[-1]
    if not m:
        return t, 0
    return subst(t, m), len(m)


def subst_variant(t, x, enum, v):
    m = {}
    for o in VARIANTS[enum]:
        a = mk("is", x, enum, o)
        m[a] = TRUE if o == v else FALSE
    return subst(t, m)


def file_leaves(t):
    out = set()
    for u in subterms(t):
        if u.op == "file":
            out.add(u)
        if u.op == "call" and u.args[0] in ("fs::read", "File::open"):
            out.add(u)
    return out


def name_of(u):
    if u.op == "file":
        return u.args[0].split("/")[-1]
    return path_name(u.args[1])


def components(ret):
    ok = [l for l in leaves(ret) if l.op == "adt" and l.args[1] == "Ok"]
    decided(len(ok) == 1 and field(ok[0], "0", "Ok").op == "adt", "loader returns %s" % show(ret, 3))
    d = field(ok[0], "0", "Ok")
    out = {}
    for n, v in d.args[2]:
        if n == "dict":
            for m, x in v.args[2] if v.op == "adt" else ():
                if m != "is_system":
                    out["dict." + m] = x
                else:
                    out["is_system"] = x
        else:
            out[n] = v
    return out


def cow(t):
    m = {}
    for u in subterms(t):
        if u.op == "adt" and u.args[0].split("::")[-1] == "Cow":
            m[u] = u.args[2][0][1]
    return subst(t, m) if m else t


def check(c):
    names = {}

    def writer(cfg, fn, want):
        def go():
            k = c.fn(fn, crate="lindera_dictionary_builder", cfg=cfg)
            r = analyse(k, "all", cfg)
            c.functions.update(r.visited | {k})
            got = {}
            for f in out_files(r):
                its = f.items
                if cfg == "compress":
                    its = uncompressed(c, its)
                ro = role(its)
                decided(ro is not None, "content of %s not recognised: %s" % (f.name, its))
                decided(f.name is not None, "file name is computed")
                require(ro not in got or got[ro] == f.name, "two files hold the %s" % ro)
                d = path_dir(f.path)
                decided(d is not None, "directory of %s" % f.name)
                require(d is mk("par", "output_dir"), "%s is written to %s" % (f.name, show(d, 4)))
                got[ro] = f.name
            require(sorted(got) == sorted(want), "%s writes %s" % (fn, got))
            for ro, n in got.items():
                names.setdefault(cfg, {})[ro] = n
            return str(got)
        return go

    for cfg in ("default", "compress"):
        for fn, want in (("DictBuilder::build", ["trie", "entries", "details", "index"]), ("CostMatrixBuilder::build", ["matrix"]),
                         ("UnkBuilder::build", ["unknown words"]), ("CharDefBuilder::build", ["char definitions"])):
            c.ob("%s: files of %s" % (cfg, fn), writer(cfg, fn, want))

    def same_names():
        decided(len(names.get("default", {})) == 7 and len(names.get("compress", {})) == 7, "not all files recognised")
        require(names["default"] == names["compress"], "names differ with compression: %s" % names)
        require(len(set(names["default"].values())) == 7, "two components share a file: %s" % names["default"])
        return str(names["default"])
    c.ob("seven distinct names", same_names)
    if len(names.get("default", {})) != 7 or len(names.get("compress", {})) != 7:
        return
    norm_comp = {}

    def loader(cfg, fn, crate):
        def go():
            ks = [k for k in c.w(cfg).find(fn, crate=crate) if "promoted" not in k]
            if len(ks) != 1:
                raise Missing("%s in %s" % (fn, crate))
            r = analyse(ks[0], "all", cfg)
            c.functions.update(r.visited | {ks[0]})
            comp = components(r.ret)
            miss = [k for k in COMPONENT if k not in comp]
            decided(not miss, "dictionary components %s" % sorted(comp))
            dirs = set()
            out = {}
            for k, ro in COMPONENT.items():
                t = cow(comp[k])
                if cfg == "compress":
                    enum, vs = c11.variants(c)
                    t, n = strip_decode(t, enum, vs, None)
                    require(n > 0, "%s is read without being decompressed" % k)
                fl = file_leaves(t)
                require(fl, "%s does not come from a file: %s" % (k, show(t, 4)))
                ns = {name_of(u) for u in fl}
                decided(None not in ns, "%s is read from a computed name: %s" % (k, [show(u, 4) for u in fl]))
                require(ns == {names[cfg][ro]}, "%s is read from %s, the %s are written to %s" % (k, sorted(ns), ro, names[cfg][ro]))
                for u in fl:
                    dirs.add(u.args[0].rsplit("/", 1)[0] if u.op == "file" else show(path_dir(u.args[1]) or u.args[1]))
                m = {}
                for u in fl:
                    sym = mk("sym", "file " + names[cfg][ro])
                    m[u] = m[mk("f", u, "Ok", "0")] = sym
                    m[mk("call", "io_read:read_to_end", mk("f", u, "Ok", "0"))] = sym
                out[k] = subst(t, m)
            # also when a read fails: nothing else is looked for instead
            # (with compression the embedded loaders differ only in decoding, whose failures multiply)
            every = file_leaves(analyse(ks[0], None, cfg if crate == "lindera_dictionary" else "default").ret)
            others = [u for u in every if name_of(u) not in set(names[cfg].values())]
            require(not others, "a file the builder does not write is read: %s" % [show(u, 5) for u in others[:2]])
            require(len(dirs) == 1, "components are read from %s" % sorted(dirs))
            require(comp["is_system"] is TRUE, "the dictionary's entries are marked as %s" % show(comp["is_system"]))
            norm_comp[(cfg, crate)] = (out, dirs.pop())
            return "7 components"
        return go

    for cfg in ("default", "compress"):
        c.ob("%s: directory loader" % cfg, loader(cfg, "DictionaryLoader::load_dictionary", "lindera_dictionary"))
        for e in EMBEDDED:
            c.ob("%s: embedded %s" % (cfg, e), loader(cfg, "load_dictionary", e))

    def reading(cfg, crate):
        def go():
            ref = norm_comp[("default", "lindera_dictionary")][0]
            got = norm_comp[(cfg, crate)][0]
            for k in COMPONENT:
                same(got[k], ref[k], "%s: reading of %s" % (crate, k))
            return "as from a directory"
        return go
    for (cfg, crate) in sorted(norm_comp):
        if crate != "lindera_dictionary" and ("default", "lindera_dictionary") in norm_comp:
            c.ob("%s: %s reads like the directory loader" % (cfg, crate), reading(cfg, crate))

    def own_dir():
        ds = {}
        for (cfg, crate), (out, d) in norm_comp.items():
            if crate in EMBEDDED:
                ds.setdefault(d, set()).add(crate)
        for d, cs in ds.items():
            require(len(cs) == 1, "%s embed the same directory %s" % (sorted(cs), d))
        return str(sorted(ds))
    c.ob("each dictionary embeds its own directory", own_dir)
    c.floor("loaders", len([1 for e in EMBEDDED for k in c.w().find("load_dictionary", crate=e)]), 5)
