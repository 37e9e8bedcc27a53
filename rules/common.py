"""Facts several rules share, derived from the analysed functions."""
from lintlib.kit import *

DICTS = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"]
SELF = mk("par", "self")


def spec(t, name, val):
    """t with the boolean builder option `name` fixed"""
    return subst(t, {field(SELF, name): TRUE if val else FALSE})


def files(c, res, names):
    d = {}
    got = out_files(res)
    for n in names:
        m = [o for o in got if o.name == n]
        if not m:
            decided(all(o.name is not None for o in got), "a file with a computed name is written")
            raise Missing("no file %s is written by %s (files: %s)" % (n, res.key, sorted({str(o.name) for o in got})))
        if len({id(o.raw) for o in m}) > 1:
            raise Undecided("%s is written in several ways" % n)
        d[n] = m[0]
    return d


SYS = ("dict.da", "dict.vals", "dict.words", "dict.wordsidx")


def items(f):
    return f.items


def system(c, mode="all"):
    r = c.analyse("DictBuilder::build", mode, crate="lindera_dictionary_builder")
    return r, files(c, r, SYS)


def okfield(t, *names):
    """field of the Ok payload"""
    ok = isv(t, RESULT, "Ok")
    v = restrict(t, ok)
    v = assume_all(field(v, "0", "Ok"), ok)
    for n in names:
        v = field(v, n)
    return v


def user(c, mode="all"):
    r = c.analyse("UserDictBuilder::build", mode, crate="lindera_dictionary_builder")
    ok = isv(r.ret, RESULT, "Ok")
    d = okfield(r.ret)
    d = assume_all(d, ok)
    return r, {"dict.da": field(field(d, "dict"), "da"), "dict.vals": field(field(d, "dict"), "vals_data"),
               "is_system": field(field(d, "dict"), "is_system"),
               "words": field(d, "words_data"), "idx": field(d, "words_idx_data")}


def assume_all(t, c):
    """t under the condition c, also inside the values it is made of"""
    t = cofactor(restrict(t, c), c)
    f = facts(c)
    return subst(t, f) if f else t


def bytes_of(v):
    """stream items of an in-memory byte buffer"""
    b, its = chain(v)
    if b.op == "arr" and its:
        return [i for i in stream_items(its) if i.kind != "flush"]
    return bytes_items(v)


def unwrap_da(v):
    """the (surface, value) pairs handed to the trie builder"""
    for u in subterms(v):
        if u.op == "call" and u.args[0] == "DoubleArrayBuilder::build":
            return u.args[1]
    raise Undecided("trie is built in an unknown way: %s" % show(v, 4))


def narrowing(u):
    """u converts to a type that cannot hold every value of the source type"""
    return u.op == "cast"  # conversions that fit are removed by the analysis


def strip_cast(t):
    """conversions that keep the value or fail"""
    while True:
        if t.op == "cast":
            t = t.args[-1]
        elif t.op == "f" and t.args[1] in ("Ok", "Some") and t.args[0].op == "call" and t.args[0].args[0].startswith("try_"):
            t = t.args[0].args[-1]
        elif t.op == "call" and t.args[0].startswith("try_"):
            t = t.args[-1]
        else:
            return t


def one_loop(its, what):
    """a stream that is a single loop"""
    require(len(its) == 1 and its[0].kind == "each", "%s: expected one record per element, found %s" % (what, its))
    return its[0].loop, its[0].body


WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}


def reads(t):
    """integer reads in a term: list of (type, endian, buffer, from, to, term)"""
    out = []
    for u in subterms(t):
        if u.op == "call" and u.args[0].startswith("decode_"):
            _, ty, en = u.args[0].split("_")
            s = u.args[1]
            if s.op == "slice":
                out.append((ty, {"LittleEndian": "LE", "BigEndian": "BE"}.get(en, en), s.args[0], s.args[1], s.args[2], u))
            else:
                out.append((ty, {"LittleEndian": "LE", "BigEndian": "BE"}.get(en, en), s, INT(0), None, u))
    return out


def errors_returned(ret, what=""):
    """every failure the result depends on makes the result an error; returns their number"""
    n = 0
    for u in set(atoms(ret)):
        if u.op == "is" and u.args[1] == RESULT:
            bad, good = assume(ret, u, u.args[2] == "Err"), assume(ret, u, u.args[2] != "Err")
            if bad is good:
                continue
            for p in leaves(maptree(bad, lambda x: maptree(good, lambda y: mk("pair", x, y)))):
                b, g = p.args
                if b is not g and b.op == "adt" and b.args[0] == RESULT and b.args[1] == "Ok":
                    raise Violated("%sfailure of %s ends in success" % (what, show(u.args[0], 3)))
            n += 1
    return n


def atoms(t):
    """the atoms of the decision diagram t (not those inside its leaves)"""
    seen, todo, out = set(), [t], []
    while todo:
        u = todo.pop()
        if u in seen or u.op != "cond":
            continue
        seen.add(u)
        out.append(u.args[0])
        todo += [u.args[1], u.args[2]]
    return out


def variant(t, subject, enum, v):
    """t when `subject` is the variant v"""
    for o in VARIANTS[enum]:
        if o != v:
            a = isv(subject, enum, o)
            t = assume_all(t, NOT(a))
    return assume_all(t, isv(subject, enum, v))


# ---------------------------------------------------------------- compression
FORMATS = {"Deflate": "deflate", "Zlib": "zlib", "Gz": "gzip", "MultiGz": "gzip"}


def codec(name, suffix):
    if name.endswith(suffix):
        return FORMATS.get(name[:-len(suffix)])
    return None


def encoded(t):
    """(format, input, complete) of an encoder's output, or None"""
    if t.op == "f" and t.args[1] == "Ok":
        t = t.args[0]
    if t.op == "call" and t.args[0].endswith("Encoder::finish"):
        b, its = chain(t.args[1])
        if b.op == "call" and b.args[0].endswith("Encoder::new"):
            f = codec(b.args[0][:-5], "Encoder")
            w = [i for i in its if i.args[0] not in ("flush",)]
            if len(w) == 1 and w[0].args[0] in ("write_all", "write"):
                return f, w[0].args[1], w[0].args[0] == "write_all"
    return None


def decoded(t):
    """(format, input, complete) of a decoder's output, or None"""
    if t.op == "f" and t.args[1] == "Ok":
        t = t.args[0]
    if t.op == "call" and t.args[0].startswith("io_read:"):
        d = t.args[1]
        if d.op == "call" and d.args[0].endswith("Decoder::new"):
            return codec(d.args[0][:-5], "Decoder"), d.args[1], t.args[0] == "io_read:read_to_end"
        if d.op == "call" and d.args[0] == "Read::take" and d.args[1].op == "call" and d.args[1].args[0].endswith("Decoder::new"):
            return codec(d.args[1].args[0][:-5], "Decoder"), d.args[1].args[1], False
    return None


def compressed_parts(d, enum, subj=()):
    """(tag, data) of a CompressedData value"""
    tag = [x for n, x in d.args[2] if x in subj or (x.op == "adt" and x.args[0] == enum)]
    decided(len(tag) == 1, "compressed data is %s" % show(d, 4))
    return tag[0], [x for n, x in d.args[2] if x is not tag[0]][0]


def fn_params(c, key, cfg="default"):
    """names of the parameters of a function, self included"""
    f = world(cfg).fns[key]
    n = f.d.get("arg_count") or f.d.get("args") or 0
    n = n if isinstance(n, int) else len(n)
    return [f.locals[i].get("name") for i in range(1, n + 1)]


def uncast(t):
    """t with conversions replaced by the value converted"""
    for _ in range(6):
        m = {}
        for u in subterms(t):
            if u.op == "cast" or (u.op == "f" and u.args[0].op == "call" and u.args[0].args[0].startswith("try_")):
                m[u] = strip_cast(u)
        if not m:
            break
        t = subst(t, m)
    return t


def same_result(a, b, what):
    """a and b succeed under the same condition with the same value"""
    oa, ob = isv(a, RESULT, "Ok"), isv(b, RESULT, "Ok")
    same(oa, ob, "%s: condition for success" % what)
    if oa is not FALSE:
        same(okfield(a), okfield(b), what)


def always_err(t, what):
    """no path of t returns success"""
    t = isv(t, RESULT, "Ok")
    require(t is FALSE or (t.op == "is" and t.args[2] == "Err"), "%s is accepted if %s" % (what, show(t, 4)))


def spans_nul(a, prefix):
    """the atom a says that `prefix`, a slice from 0 of a text, contains NUL"""
    def is_prefix_of(x):
        x = uncast(x)
        if x.op == "call" and x.args[0] in ("str::bytes", "str::chars", "str::as_bytes") and len(x.args) == 2:
            x = x.args[1]
        return x is prefix
    if a.op == "call" and a.args[0] in ("contains", "str::contains", "memchr") and len(a.args) == 3:
        p = uncast(a.args[2])
        return is_prefix_of(a.args[1]) and (p is INT(0) or p is STR("\0"))
    if a.op == "exists":
        L, b = a.args
        src = L.args[0]
        k = mk("k", L)
        els = []
        n = prefix.args[2] if prefix.op == "slice" else length(prefix)
        base = prefix.args[0] if prefix.op == "slice" else prefix
        if src.op == "over" and is_prefix_of(src.args[0]):
            els = [index(src.args[0], k)]
        elif src.op == "range" and src.args[0] is INT(0) and n in leaves(src.args[1]):
            els = [index(base, k), index(mk("call", "str::bytes", base), k)]
        return any(as_bool(b) is as_bool(zero(e)) for e in els)
    return False


def only_nul(keep, prefix, what):
    """the condition `keep` holds exactly if `prefix` contains no NUL"""
    keep = as_bool(keep)
    for a in atoms(keep):
        if spans_nul(a, prefix):
            keep = assume(keep, a, False)
    require(keep is TRUE, "%s is dropped if %s" % (what, show(NOT(keep), 6)))


def drops_nul(keep, prefix, what):
    keep = as_bool(keep)
    for a in atoms(keep):
        if spans_nul(a, prefix):
            require(assume(keep, a, True) is FALSE, "%s across a NUL character may be kept" % what)
            return
    un = [a for a in atoms(keep) if unresolved(a) is not None or vocab(a) - KNOWN - {"DoubleArray::common_prefix_search"}]
    decided(not un, "%s is kept if %s" % (what, show(keep, 6)))
    raise Violated("%s across a NUL character, which no key contains, is not dropped" % what)


def inserted_in_front(r, m):
    """is a list, filled in a loop, filled by insertion in front?"""
    for l in r.loops:
        for u in subterms(l.steps.get(m, UNIT)):
            if u.op == "mut" and u.args[0] == "Vec::insert" and len(u.args[2]) == 3 and u.args[2][0] is m and u.args[2][1] is INT(0):
                return True
            if u.op == "mut" and u.args[0] == "VecDeque::push_front" and u.args[2][0] is m:
                return True
    return False


def unrolled(t):
    """a list made by a loop of known length, written out"""
    if t.op != "coll" or t.args[0].op != "L" or t.args[0].args[0].op not in ("range", "over"):
        return t
    L, body = t.args
    n = loop_len(L)
    if n is None or n.op != "int" or n.args[0] > 64 or body.op != "seq":
        return t
    out = []
    for i in range(n.args[0]):
        for e in subst(body, {mk("k", L): INT(i)}).args:
            if e.op != "it":
                return t
            out.append(e.args[0])
    return mk("arr", *out)
