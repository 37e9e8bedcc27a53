"""C12. For every function that builds a dictionary or part of one (in both feature
configurations) the analysis derives each file writer's sequence of operations on the paths that
return success. The rule: the last operation on a buffered writer is a flush, and for every write
and flush the success condition contains the test that it did not fail. The five
build_dictionary implementations must on success have written all seven files, the five
build_user_dictionary implementations their output file."""
from .common import *

ASSUMES = ["BufWriter writes everything on flush or reports an error"]
PARTS = ["DictBuilder::build", "CostMatrixBuilder::build", "UnkBuilder::build", "CharDefBuilder::build"]


def err_atom(ret, base, it):
    """does the result depend on the failure of the stream operation it on base, and end in an error?"""
    n, xs = it.args[0], it.args[1:]
    call = "io:" + n
    if n == "each":
        body = [u for u in subterms(xs[0]) if u.op == "item"]
        return all(loop_item(ret, b) for b in body if b.args[0] != "each")
    for a in atoms(ret):
        if a.op == "is" and a.args[1] == RESULT and a.args[0].op == "call" and a.args[0].args[0] == call and \
                a.args[0].args[1] is base and tuple(a.args[0].args[2:]) == tuple(xs):
            t = assume(ret, a, a.args[2] == "Err")
            return all(l.op == "adt" and l.args[1] == "Err" for l in leaves(t))
    return loop_item(ret, it)


def loop_item(ret, it):
    """the failure of an operation inside a loop ends the function with an error"""
    n, xs = it.args[0], it.args[1:]
    for a in atoms(ret):
        if a.op not in ("exists",):
            continue
        for u in subterms(a):
            if u.op == "is" and u.args[1] == RESULT and u.args[0].op == "call" and u.args[0].args[0] == "io:" + n and \
                    tuple(u.args[0].args[2:]) == tuple(xs):
                t = assume(ret, a, True)
                if all(l.op == "adt" and l.args[1] == "Err" for l in leaves(t)):
                    return True
    return False


def check(c):
    total = [0]

    def complete(cfg, key, want, least):
        def go():
            r = analyse(key, None, cfg)
            c.functions.update(r.visited | {key})
            algs = {}
            for u in subterms(r.ret):
                if u.op == "is" and u.args[1].endswith("Algorithm"):
                    algs.setdefault((u.args[0], u.args[1]), None)
            tot = 0
            if not algs:
                return one(r, {})
            out = ""
            for v in VARIANTS[next(iter(algs))[1]]:
                fx = {}
                for x, e in algs:
                    for o in VARIANTS[e]:
                        fx[mk("is", x, e, o)] = TRUE if o == v else FALSE
                out = one(r, fx)
            return out

        def one(r, fixed):
            ret = subst(r.ret, fixed) if fixed else r.ret
            got = out_files(r, fixed=fixed)
            decided(bool(got) or least == 0, "no file writer found")
            n = 0
            for f in got:
                label = f.name or show(f.path, 3)
                require(f.its, "%s is created but nothing is written to it" % label)
                if f.buffered:
                    require(f.flushed, "%s is not flushed after the last write on a path that reports success (%s)" %
                            (label, [i.args[0] for i in f.its]), f.fn)
                b = f.base
                rb = ret
                for it in f.its:
                    n += 1
                    require(err_atom_or_alg(rb, b, it), "an error of %s on %s is not returned" % (it.args[0], label), f.fn)
                    b = app(b, it)
            names = {f.name for f in got}
            miss = [w for w in want if w not in names]
            decided(not (miss and None in names and want), "a file name is computed")
            require(not miss, "success is reported without writing %s" % miss, key)
            require(len(got) >= least, "only %d files are written" % len(got))
            total[0] += len(got)
            return "%d files, %d operations" % (len(got), n)
        return go

    def err_atom_or_alg(ret, b, it):
        if err_atom(ret, b, it):
            return True
        # written data may depend on a condition: compare operation and position only
        n = it.args[0]
        for a in atoms(ret):
            for u in (a,) if a.op == "is" else subterms(a) if a.op == "exists" else ():
                if u.op == "is" and u.args[1] == RESULT and u.args[0].op == "call" and u.args[0].args[0] == "io:" + n:
                    x = u.args[0].args[1]
                    p = file_of(chain(x)[0])
                    if p is not None and p is file_of(chain(b)[0]) and len(chain(x)[1]) == len(chain(b)[1]):
                        t = assume(ret, a, True if a.op == "exists" else a.args[2] == "Err")
                        if all(l.op == "adt" and l.args[1] == "Err" for l in leaves(t)):
                            return True
        return False

    from .c08 import EMBEDDED
    for cfg in ("default", "compress"):
        for p in PARTS:
            try:
                k = c.fn(p, crate="lindera_dictionary_builder", cfg=cfg)
            except Missing:
                c.ob("%s: %s" % (cfg, p), c.fn, p)
                continue
            c.ob("%s: %s" % (cfg, p), complete(cfg, k, [], 4 if p == "DictBuilder::build" else 1))
        w = c.w(cfg)
        for e in EMBEDDED:
            crate = e + "_builder"
            for fn, want, least in (("build_dictionary", ["char_def.bin", "unk.bin", "matrix.mtx"] + list(SYS), 7),
                                    ("build_user_dictionary", [], 1)):
                ks = [k for k in w.fns if k.endswith("::" + fn) and w.fns[k].crate == crate]
                if len(ks) != 1:
                    def miss(crate=crate, fn=fn):
                        raise Missing("%s in %s" % (fn, crate))
                    c.ob("%s: %s %s" % (cfg, crate, fn), miss)
                    continue
                c.ob("%s: %s %s" % (cfg, crate, fn), complete(cfg, ks[0], want if fn == "build_dictionary" else [], least))
    c.counts["file writers"] = total[0]
