"""C11. compress and decompress are reduced to what they return for each variant of the
algorithm type: the encoder or decoder type applied, the bytes handed to it, how its output is
collected, and the tag stored. The rule pairs them per variant; every failure the results
depend on must lead to an error; and the files written with compression enabled are checked to
hold the compressed form of the complete buffer under the tag it was compressed with."""
from .common import *

ASSUMES = ["flate2's XEncoder and XDecoder implement the same format, and finish() completes the stream"]


def variants(c):
    e = [n for n in VARIANTS if n.endswith("lindera_decompress::Algorithm") or n.endswith("::Algorithm") or n == "Algorithm"]
    if not e:
        raise Missing("type Algorithm")
    return e[0], VARIANTS[e[0]]


def loops(r):
    """is anything read in a loop?"""
    return any(u.op == "mut" and u.args[0] == "Read::read" for l in r.loops for x in l.steps.values() for u in subterms(x))


def check(c):
    enc, dec = {}, {}

    def encoder():
        r = c.analyse("lindera_compress::compress", "io")
        enum, vs = variants(c)
        alg = mk("par", "algorithm")
        for v in vs:
            t = variant(r.ret, alg, enum, v)
            ok = [l for l in leaves(t) if l.op == "adt" and l.args[1] == "Ok"]
            require(len(ok) == 1, "compressing with %s gives %s" % (v, show(t, 4)))
            d = field(ok[0], "0", "Ok")
            decided(d.op == "adt", "compress returns %s" % show(d, 4))
            fs = dict(d.args[2])
            tag = [x for n, x in fs.items() if x is alg or (x.op == "adt" and x.args[0] == enum)]
            require(len(tag) == 1 and (tag[0] is alg or tag[0].args[1] == v), "data compressed with %s is tagged %s" % (v, [show(x) for x in fs.values()][:1]))
            data = [x for n, x in fs.items() if x is not tag[0]][0]
            inp = mk("par", "data")
            if data is inp:
                enc[v] = "raw"
            else:
                part = [l for l in leaves(data) if l.op == "slice" and l.args[0] is inp]
                require(not part, "%s: only %s of the input is kept" % (v, [show(l, 4) for l in part]))
                e = encoded(data)
                decided(e is not None and e[0] is not None, "%s: output is %s" % (v, show(data, 5)))
                require(e[2], "%s: the input is handed over with write, which may take only part of it" % v)
                require(e[1] is inp, "%s: %s is encoded instead of the whole input" % (v, show(e[1], 5)))
                enc[v] = e[0]
        return str(enc)

    def decoder():
        r = c.analyse("lindera_decompress::decompress", "io")
        enum, vs = variants(c)
        p = mk("par", "data")
        subj = field(p, "algorithm")
        for v in vs:
            t = variant(r.ret, subj, enum, v)
            ok = [l for l in leaves(t) if l.op == "adt" and l.args[1] == "Ok"]
            require(len(ok) == 1, "decompressing %s gives %s" % (v, show(t, 4)))
            d = field(ok[0], "0", "Ok")
            inp = field(p, "data")
            if d is inp:
                dec[v] = "raw"
            else:
                part = [l for l in leaves(d) if l.op == "slice" and l.args[0] is inp]
                require(not part, "%s: only %s of the data is returned" % (v, [show(l, 4) for l in part]))
                e = decoded(d)
                once = [u for u in subterms(d) if u.op == "mut" and u.args[0] == "Read::read"]
                require(e is not None or not once or loops(r), "%s: the output is read with read, which may give only part of it" % v)
                decided(e is not None and e[0] is not None, "%s: output is %s" % (v, show(d, 5)))
                require(e[2], "%s: the decoder is not read to its end" % v)
                require(e[1] is inp, "%s: %s is decoded instead of the whole data" % (v, show(e[1], 5)))
                dec[v] = e[0]
        return str(dec)

    def pair(v):
        def go():
            require(enc[v] == dec[v], "%s is encoded as %s and decoded as %s" % (v, enc[v], dec[v]))
            return enc[v]
        return go

    def errors(name):
        def go():
            r = c.analyse(name)
            n = errors_returned(r.ret)
            steps = set()
            for u in subterms(r.ret):
                if u.op == "call" and u.args[0].startswith("io_read:") and "Decoder::new" in show(u, 3):
                    steps.add(("io:" + u.args[0][8:], u.args[1]))
                if u.op == "app" and any("Encoder::new" in x for x in vocab(u)):
                    steps |= {("io:" + i.args[0], i.args[1]) for i in chain(u)[1] if i.op == "item"}
            seen = {(u.args[0].args[0], x) for u in atoms(r.ret) if u.op == "is" and u.args[0].op == "call" for x in u.args[0].args[1:]}
            for s_, x in steps:
                require((s_, x) in seen, "the result of %s does not depend on whether %s(%s) succeeds" % (name, s_[3:], show(x, 3)))
            ps = [p for p in r.panics if p.kind in ("unwrap",)]
            require(not ps, "a failure ends in a panic in %s: %s" % (name, [p.span for p in ps]))
            return "%d failures returned" % n
        return go

    a = c.ob("encoders", encoder)
    b = c.ob("decoders", decoder)
    if a and b:
        for v in sorted(set(enc) | set(dec)):
            c.ob("variant " + v, pair(v))
        c.floor("algorithm variants", len(set(enc) & set(dec)), 4)
    c.ob("encoder errors", errors("lindera_compress::compress"))
    c.ob("decoder errors", errors("lindera_decompress::decompress"))

    def stored(name, fnames):
        def go():
            k = c.fn(name, crate="lindera_dictionary_builder", cfg="compress")
            r = analyse(k, "all", "compress")
            c.functions.update(r.visited | {k})
            enum, vs = variants(c)
            for n, f in files_of(r, fnames).items():
                its = f.items
                require(len(its) == 1 and its[0].kind == "serialize", "%s holds %s" % (n, its))
                v0 = its[0].val
                subj = {u.args[0] for u in subterms(v0) if u.op == "is" and u.args[1] == enum}
                decided(len(subj) <= 1, "%s: algorithm chosen by %s" % (n, [show(x, 3) for x in subj]))
                inner = set()
                for v in vs:
                    d = v0
                    for x in subj:
                        d = variant(v0, x, enum, v)
                    decided(d.op == "adt" and d.args[0].endswith("CompressedData"), "%s holds %s" % (n, show(d, 4)))
                    tag, data = compressed_parts(d, enum, subj)
                    tv = tag.args[1] if tag.op == "adt" else v
                    e = encoded(data)
                    if e:
                        require(e[2], "%s: the encoder is handed only part of the data" % n)
                    require((e[0] if e else "raw") == dec.get(tv), "%s: tagged %s, encoded as %s" % (n, tv, e[0] if e else "raw"))
                    inner.add(e[1] if e else data)
                require(len(inner) == 1, "%s: what is compressed depends on the algorithm" % n)
            return ", ".join(fnames)
        return go

    def files_of(r, names):
        return files(c, r, names)
    if a and b:
        for name, fn in (("DictBuilder::build", SYS), ("CostMatrixBuilder::build", ["matrix.mtx"]),
                         ("UnkBuilder::build", ["unk.bin"]), ("CharDefBuilder::build", ["char_def.bin"])):
            c.ob("stored by " + name, stored(name, fn))
