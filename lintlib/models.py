"""Meaning of the library functions the analysed code calls."""
import re
from .terms import *
from . import terms as tm

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def strip(t):
    from .engine import strip_refs
    return strip_refs(t)


def some_if(c, v):
    return ite(c, SOME(v), NONE)


CUR = "Cursor"


def cursor(desc, pos=INT(0)):
    return mk("adt", CUR, None, (("it", desc), ("pos", pos)))


def desc(kind, *a):
    return mk("desc", kind, *a)


def is_cur(v):
    return v.op == "adt" and v.args[0] == CUR


def over(v):
    return cursor(desc("over", v))


RANGE = "std::ops::Range"


def to_cursor(e, v, st, ty=""):
    """value used as an iterator"""
    r = v
    val = e.get(v, st)
    if is_cur(val):
        return v
    if val.op == "adt":
        n = val.args[0]
        if n == RANGE:
            a, b = field(val, "start"), field(val, "end")
            return cursor(desc("range", a, b))
        if n == "std::ops::RangeInclusive":
            return cursor(desc("range", field(val, "start"), add(field(val, "end"), INT(1))))
        if n == "std::ops::RangeFrom":
            return cursor(desc("from", field(val, "start")))
    if val.op == "call" and val.args[0] == "RangeInclusive::new":
        return cursor(desc("range", val.args[1], add(val.args[2], INT(1))))
    if val.op == "adt" and val.args[0] == OPTION:
        return over(mk("arr", val.args[2][0][1]) if val.args[1] == "Some" else mk("arr"))
    t = strip(ty)
    if v.op == "ref":
        if re.search(r"(HashMap|BTreeMap|HashSet|BTreeSet)<", t):
            return over(pure("map_iter", val))
        return cursor(desc("overm", v))
    if re.match(r"(std::collections::)?(hash_map::|btree_map::)?(HashMap|BTreeMap)<", t):
        return over(pure("map_iter", val))
    if t.startswith("std::option::Option<") or t.startswith("Option<"):
        return over(pure("opt_seq", val))
    return over(val)


def dlen(e, d, st):
    k = d.args[0]
    if k == "over":
        return length(d.args[1])
    if k == "overm":
        return length(e.get(d.args[1], st))
    if k == "range":
        return sub(d.args[2], d.args[1])
    if k == "from":
        return None
    if k in ("enum", "map", "rev", "filter", "fmap", "inspect", "takew"):
        return dlen(e, d.args[1], st)
    if k == "skip":
        n = dlen(e, d.args[1], st)
        return None if n is None else sub(n, d.args[2])
    if k == "take":
        n = dlen(e, d.args[1], st)
        if n is None:
            return d.args[2]
        return ite(lt(n, d.args[2]), n, d.args[2])
    if k == "zip":
        a, b = dlen(e, d.args[1], st), dlen(e, d.args[2], st)
        if a is None:
            return b
        if b is None or a is b:
            return a
        return ite(lt(a, b), a, b)
    raise AssertionError(k)


def exact(d):
    k = d.args[0]
    if k in ("filter", "fmap", "takew"):
        return False
    if k in ("over", "overm", "range", "from"):
        return True
    if k == "zip":
        return exact(d.args[1]) and exact(d.args[2])
    return exact(d.args[1])


def delem(e, d, i, st, ctx):
    """-> (present guard, stop guard, element)"""
    k = d.args[0]
    if k == "over":
        return TRUE, FALSE, index(d.args[1], i)
    if k == "overm":
        r = d.args[1]
        if r.op != "ref":
            return TRUE, FALSE, index(e.get(r, st), i)
        cell, path = r.args
        while True:
            cur = e.read(cell, path, st)
            if cur.op == "ref":
                cell, path = cur.args
            else:
                break
        return TRUE, FALSE, mk("ref", cell, path + (("i", i),))
    if k == "range" or k == "from":
        return TRUE, FALSE, add(d.args[1], i)
    if k == "enum":
        g, s, v = delem(e, d.args[1], i, st, ctx)
        return g, s, mk("tup", i, v)
    if k == "map":
        g, s, v = delem(e, d.args[1], i, st, ctx)
        if g is TRUE:
            return g, s, e.apply(d.args[2], [v], st, ctx)
        r = e.branch(g, st, ctx, lambda q: e.apply(d.args[2], [v], q, ctx), lambda q: UNDEF)
        return g, s, r
    if k == "inspect":
        g, s, v = delem(e, d.args[1], i, st, ctx)
        e.apply(d.args[2], [v], st, ctx)
        return g, s, v
    if k == "filter":
        g, s, v = delem(e, d.args[1], i, st, ctx)
        if g is TRUE:
            c = as_bool(e.get(e.apply(d.args[2], [v], st, ctx), st))
        else:
            c = as_bool(e.branch(g, st, ctx, lambda q: e.get(e.apply(d.args[2], [v], q, ctx), q), lambda q: FALSE))
        return AND(g, c), s, v
    if k == "takew":
        g, s, v = delem(e, d.args[1], i, st, ctx)
        c = as_bool(e.get(e.apply(d.args[2], [v], st, ctx), st))
        return g, OR(s, NOT(c)), v
    if k == "fmap":
        g, s, v = delem(e, d.args[1], i, st, ctx)
        o = e.apply(d.args[2], [v], st, ctx)
        c = isv(o, OPTION, "Some")
        return AND(g, c), s, field(o, "0", "Some")
    if k == "rev":
        n = dlen(e, d.args[1], st)
        return delem(e, d.args[1], sub(sub(n, INT(1)), i), st, ctx)
    if k == "skip":
        return delem(e, d.args[1], add(d.args[2], i), st, ctx)
    if k == "take":
        return delem(e, d.args[1], i, st, ctx)
    if k == "zip":
        g, s, a = delem(e, d.args[1], i, st, ctx)
        g2, s2, b = delem(e, d.args[2], i, st, ctx)
        return AND(g, g2), OR(s, s2), mk("tup", a, b)
    raise AssertionError(k)


def cur_of(e, ref, st):
    """(ref to cursor or None, cursor value)"""
    v = e.get(ref, st)
    if not is_cur(v):
        return None
    return v


def inner_ref(e, ref, st):
    while ref.op == "ref":
        cur = e.read(ref.args[0], ref.args[1], st)
        if cur.op == "ref":
            ref = cur
        else:
            return ref
    return ref


def cur_next(e, ref, st, ctx):
    """advance: (more, present, elem) or None; state advanced"""
    ref = inner_ref(e, ref, st)
    c = e.get(ref, st)
    d, p = field(c, "it"), field(c, "pos")
    n = dlen(e, d, st)
    more = TRUE if n is None else pos(sub(n, p))
    return d, p, more


@model("Iterator::next")
def _next(e, ctx, ref, args, st):
    r0 = inner_ref(e, args[0], st)
    v = e.get(r0, st)
    if not is_cur(v):
        if v.op in ("cond", "mut", "upd"):
            return None
        if v.op == "mu" or v.op == "adt":
            return None
        if r0.op == "ref":
            c = to_cursor(e, v, st, ref.self_ty or "")
            if not is_cur(c):
                return None
            e.put(r0, c, st)
            v = c
        else:
            return None
    d, p, more = cur_next(e, r0, st, ctx)
    if more is FALSE:
        return NONE
    ctx2 = ctx
    res = []

    def hi(s):
        g, stop, x = delem(e, d, p, s, ctx)
        e.put(r0, upd_field(e.get(r0, s), "pos", None, add(p, INT(1))), s)
        res.append((g, stop, x))
        return x
    if more is TRUE:
        x = hi(st)
    elif exact(d) and not has_effects(d):
        # elements of plain sequences can be named whether or not they exist
        x = hi(st)
    else:
        x = e.branch(more, st, ctx, hi, lambda s: UNDEF)
    g, stop, _ = res[0]
    more2 = AND(more, NOT(stop))
    if g is not TRUE:
        lp = e.skipctx[-1] if e.skipctx else None
        if lp is None:
            return some_if(AND(more2, g), x)
        lp.skips.append((AND(ctx.g, AND(more2, NOT(g))), dict(st)))
        ctx.also(OR(NOT(more2), g))
    return some_if(more2, x)


def has_effects(d):
    return d.args[0] in ("map", "filter", "fmap", "inspect", "takew") or any(
        isinstance(a, tm.T) and a.op == "desc" and has_effects(a) for a in d.args[1:])


def iterate(e, it, st, ctx, body, ty=""):
    """run body(elem, state) for every element; body may return early exits
    [(tag, guard, state)].  -> [(tag, guard, state)] ('done' = exhausted)"""
    from .engine import uid
    c = to_cursor(e, it, st, ty)
    cell = ("R", uid())
    if is_cur(c):
        st[cell] = c
        r0 = mk("ref", cell, ())
    else:
        r0 = c

    def run(hst, lp):
        s = dict(hst)
        cg = ctx.guard
        ctx.guard = TRUE
        d, p, more = cur_next(e, r0, s, ctx)
        exits = [("done", NOT(more), dict(s))]
        if more is FALSE:
            ctx.guard = cg
            return [], exits
        mark = len(e.panics)
        try:
            g, stop, x = delem(e, d, p, s, ctx)
        except tm_dead():
            ctx.guard = cg
            return [], exits
        e.put(r0, upd_field(e.get(r0, s), "pos", None, add(p, INT(1))), s)
        gm = AND(more, ctx.guard)
        if stop is not FALSE:
            exits.append(("done", AND(gm, stop), dict(s)))
            gm = AND(gm, NOT(stop))
        if g is not TRUE:
            lp.skips.append((AND(gm, NOT(g)), dict(s)))
            gm = AND(gm, g)
        ctx.guard = TRUE
        try:
            ex = body(x, s) or []
        except tm_dead():
            for q in e.panics[mark:]:
                q.guard = AND(gm, q.guard)
            ctx.guard = cg
            return list(lp.skips), exits
        for q in e.panics[mark:]:
            q.guard = AND(gm, q.guard)
        g2 = AND(gm, ctx.guard)
        for tag, eg, es in ex:
            exits.append((tag, AND(g2, eg), es))
            g2 = AND(g2, NOT(eg))
        ctx.guard = cg
        return [(g2, s)] + list(lp.skips), exits

    e.skipctx.append(None)
    try:
        edges = e.solve_loop(st, run)
    finally:
        e.skipctx.pop()
    for _, _, s in edges:
        s.pop(cell, None)
    return edges


def tm_dead():
    from .engine import Dead
    return Dead


def finish(e, edges, st, ctx):
    """merge the exits of an iteration into st"""
    G, s = e.merge([(g, s) for _, g, s in edges])
    st.clear()
    st.update(s)
    if G is FALSE:
        raise tm_dead()()
    ctx.also(G) if G is not TRUE else None


def toseq(e, it, st, ctx, ty=""):
    from .engine import uid
    v = e.get(it, st)
    if is_cur(v):
        d, p = field(v, "it"), field(v, "pos")
        if d.args[0] == "over":
            x = d.args[1]
            return slice_(x, p, length(x)) if p is not INT(0) else x
    else:
        c = to_cursor(e, it, st, ty)
        cv = e.get(c, st)
        if is_cur(cv) and field(cv, "it").args[0] == "over":
            return field(cv, "it").args[1]
    acc = ("R", uid())
    st[acc] = mk("arr")

    def body(x, s):
        s[acc] = app(s[acc], mk("item", "push", e.deep(x, s)))
    edges = iterate(e, it, st, ctx, body, ty)
    finish(e, edges, st, ctx)
    return st.pop(acc)


def count(e, it, st, ctx, ty=""):
    from .engine import uid
    n = ("R", uid())
    st[n] = INT(0)

    def body(x, s):
        s[n] = add(s[n], INT(1))
    st2 = dict(st)
    s = toseq(e, it, st2, ctx, ty)
    if not any(u.op == "mu" for l in leaves(s) for u in [l]):
        st.clear()
        st.update(st2)
        st.pop(n, None)
        return length(s)
    edges = iterate(e, it, st, ctx, body, ty)
    finish(e, edges, st, ctx)
    return st.pop(n)


# ------------------------------------------------------------ iterator adaptors
@model("IntoIterator::into_iter", "slice::iter_mut", "slice::iter", "Iterator::by_ref", "Iterator::cloned",
       "Iterator::copied", "Iterator::peekable", "Iterator::fuse", "Option::iter", "HashSet::iter", "BTreeMap::iter",
       "HashMap::iter", "HashSet::into_iter", "Vec::iter", "Vec::drain", "VecDeque::iter", "HashMap::iter_mut",
       "BTreeMap::into_iter", "Vec::into_iter", "Option::into_iter")
def _iter(e, ctx, ref, args, st):
    if ref.name == "Vec::drain":
        v = e.get(args[0], st)
        r = args[1]
        if not (r.op == "adt" and r.args[0] == "std::ops::RangeFull"):
            return None
        e.put(args[0], mk("arr"), st)
        return over(v)
    if ref.name.startswith("Iterator::"):
        return to_cursor(e, args[0], st, ref.self_ty or "")
    ty = (ctx.argtys[0] if ctx.argtys and len(ctx.argtys) == 1 else ref.self_ty) or ""
    if ref.name == "IntoIterator::into_iter":
        ty = ref.gargs[0] if ref.gargs else ty
    if ref.name in ("slice::iter", "HashSet::iter", "Vec::iter", "VecDeque::iter"):
        return over(e.get(args[0], st))
    if ref.name in ("BTreeMap::iter", "HashMap::iter"):
        return over(pure("map_iter", e.get(args[0], st)))
    if ref.name == "Option::iter":
        v = e.get(args[0], st)
        return over(pure("opt_seq", v))
    return to_cursor(e, args[0], st, ty)


def adaptor(kind, *names):
    @model(*names)
    def f(e, ctx, ref, args, st):
        c = e.get(to_cursor(e, args[0], st, ref.self_ty or ""), st)
        if not is_cur(c):
            return None
        d, p = field(c, "it"), field(c, "pos")
        if p is not INT(0):
            d = desc("skip", d, p)
        return cursor(desc(kind, d, *args[1:]))
    return f


adaptor("enum", "Iterator::enumerate")
adaptor("map", "Iterator::map")
adaptor("inspect", "Iterator::inspect")
adaptor("filter", "Iterator::filter")
adaptor("fmap", "Iterator::filter_map")
adaptor("takew", "Iterator::take_while")


@model("Iterator::rev", "Iterator::skip", "Iterator::take")
def _rst(e, ctx, ref, args, st):
    c = e.get(to_cursor(e, args[0], st, ref.self_ty or ""), st)
    if not is_cur(c):
        return None
    d, p = field(c, "it"), field(c, "pos")
    if p is not INT(0):
        d = desc("skip", d, p)
    if not exact(d):
        d = desc("over", toseq(e, args[0], st, ctx, ref.self_ty or ""))
    if ref.name == "Iterator::rev":
        if dlen(e, d, st) is None:
            return None
        return cursor(desc("rev", d))
    if ref.name == "Iterator::skip" and d.args[0] == "over":
        v = d.args[1]
        return over(slice_(v, e.get(args[1], st), length(v)))
    return cursor(desc(ref.name.split("::")[1], d, e.get(args[1], st)))


@model("Iterator::zip")
def _zip(e, ctx, ref, args, st):
    a = e.get(to_cursor(e, args[0], st, ref.self_ty or ""), st)
    b = e.get(to_cursor(e, args[1], st), st)
    if not (is_cur(a) and is_cur(b)):
        return None
    ds = []
    for c in (a, b):
        d, p = field(c, "it"), field(c, "pos")
        if not exact(d):
            return None
        ds.append(d if p is INT(0) else desc("skip", d, p))
    return cursor(desc("zip", *ds))


@model("Iterator::chain")
def _chain(e, ctx, ref, args, st):
    a = toseq(e, args[0], st, ctx, ref.self_ty or "")
    b = toseq(e, args[1], st, ctx)
    return over(app(a, mk("item", "extend", b)) if a.op != "arr" or b.op != "arr" else mk("arr", *(a.args + b.args)))


@model("Iterator::flat_map", "Iterator::flatten")
def _flat(e, ctx, ref, args, st):
    from .engine import uid
    if ref.name.endswith("flatten"):
        c = e.get(to_cursor(e, args[0], st, ref.self_ty or ""), st)
        d = field(c, "it") if is_cur(c) else None
        if d is not None and d.args[0] == "over" and field(c, "pos") is INT(0):
            o = d.args[1]
            if o.op == "call" and o.args[0] == "opt_seq":
                o = o.args[1]
                return over(ite(as_bool(isv(o, OPTION, "Some")), toseq(e, field(o, "0", "Some"), st, ctx), mk("arr")))
    acc = ("R", uid())
    st[acc] = mk("arr")

    def body(x, s):
        y = e.apply(args[1], [x], s, ctx) if ref.name.endswith("flat_map") else x
        inner_ty = ""
        m = re.search(r"(Option|Result)<", ref.self_ty or "")
        yv = e.get(y, s)
        if ref.name.endswith("flatten") and not is_cur(yv):
            # options and results flatten to their payload
            if "glob" in str(ref.self_ty) or "Result" in (ref.self_ty or "") or "Option" in (ref.self_ty or "") or "Paths" in (ref.self_ty or ""):
                variant = "Some" if "Option" in (ref.self_ty or "") else "Ok"
                en = OPTION if variant == "Some" else RESULT
                c = isv(yv, en, variant)
                s[acc] = ite(c, app(s[acc], mk("item", "push", field(yv, "0", variant))), s[acc])
                return
        z = toseq(e, y, s, ctx, inner_ty)
        s[acc] = app(s[acc], mk("item", "extend", e.deep(z, s)))
    edges = iterate(e, args[0], st, ctx, body, ref.self_ty or "")
    finish(e, edges, st, ctx)
    return over(st.pop(acc))


@model("Iterator::for_each")
def _for_each(e, ctx, ref, args, st):
    def body(x, s):
        e.apply(args[1], [x], s, ctx)
    edges = iterate(e, args[0], st, ctx, body, ref.self_ty or "")
    finish(e, edges, st, ctx)
    return UNIT


@model("Iterator::try_for_each")
def _try_for_each(e, ctx, ref, args, st):
    def body(x, s):
        r = e.apply(args[1], [x], s, ctx)
        bad = isv(r, RESULT, "Err")
        s2 = dict(s)
        s2[("R", 1)] = ERR(field(r, "0", "Err"))
        return [("err", bad, s2)]
    edges = iterate(e, args[0], st, ctx, body, ref.self_ty or "")
    out = []
    for t, g, s in edges:
        s[("R", 1)] = OK(UNIT) if t == "done" else s.get(("R", 1), UNDEF)
        out.append((t, g, s))
    finish(e, out, st, ctx)
    return st.pop(("R", 1))


@model("Iterator::fold")
def _fold(e, ctx, ref, args, st):
    from .engine import uid
    acc = ("R", uid())
    st[acc] = args[1]

    def body(x, s):
        s[acc] = e.apply(args[2], [s[acc], x], s, ctx)
    edges = iterate(e, args[0], st, ctx, body, ref.self_ty or "")
    finish(e, edges, st, ctx)
    return st.pop(acc)


@model("Iterator::sum")
def _sum(e, ctx, ref, args, st):
    from .engine import uid
    acc = ("R", uid())
    st[acc] = INT(0)

    def body(x, s):
        s[acc] = add(s[acc], e.get(x, s))
    edges = iterate(e, args[0], st, ctx, body, ref.self_ty or "")
    finish(e, edges, st, ctx)
    return st.pop(acc)


@model("Iterator::any", "Iterator::all", "Iterator::find", "Iterator::position", "Iterator::find_map")
def _search(e, ctx, ref, args, st):
    from .engine import uid
    w = ref.name.split("::")[1]
    n = ("R", uid())
    out = ("R", uid())
    if w == "position":
        st[n] = INT(0)

    def body(x, s):
        r = e.apply(args[1], [x], s, ctx)
        if w == "find_map":
            hit = isv(r, OPTION, "Some")
        else:
            hit = as_bool(e.get(r, s))
        if w == "all":
            hit = NOT(hit)
        s2 = dict(s)
        s2[out] = {"any": TRUE, "all": FALSE, "find": SOME(x), "find_map": r}.get(w) or SOME(s[n])
        if w == "position":
            s[n] = add(s[n], INT(1))
        return [("hit", hit, s2)]
    edges = iterate(e, args[0], st, ctx, body, ref.self_ty or "")
    o = []
    for t, g, s in edges:
        if t == "done":
            s[out] = {"any": FALSE, "all": TRUE}.get(w) or NONE
        o.append((t, g, s))
    finish(e, o, st, ctx)
    st.pop(n, None)
    return st.pop(out)


@model("Iterator::count", "Iterator::last", "ExactSizeIterator::len", "Iterator::nth", "Iterator::min", "Iterator::max")
def _count(e, ctx, ref, args, st):
    w = ref.name.split("::")[1]
    r0 = inner_ref(e, args[0], st)
    if w == "count":
        return count(e, args[0], st, ctx, ref.self_ty or "")
    s = toseq(e, args[0], st, ctx, ref.self_ty or "")
    n = length(s)
    if w == "len":
        return n
    if w == "last":
        return some_if(NOT(zero(n)), index(s, sub(n, INT(1))))
    if w == "nth":
        i = e.get(args[1], st)
        if r0.op == "ref":
            c = e.get(r0, st)
            if is_cur(c):
                e.put(r0, upd_field(c, "pos", None, add(field(c, "pos"), add(i, INT(1)))), st)
        return some_if(pos(sub(n, i)), index(s, i))
    return some_if(NOT(zero(n)), pure(w, s))


@model("Iterator::min_by_key", "Iterator::max_by_key")
def _minby(e, ctx, ref, args, st):
    from .engine import uid
    acc = ("R", uid())
    st[acc] = mk("arr")

    def body(x, s):
        kx = e.apply(args[1], [x], s, ctx)
        s[acc] = app(s[acc], mk("item", "push", mk("tup", e.get(kx, s), e.deep(x, s))))
    edges = iterate(e, args[0], st, ctx, body, ref.self_ty or "")
    finish(e, edges, st, ctx)
    c = st.pop(acc)
    return pure(ref.name.split("::")[1], c)


@model("Iterator::min_by", "Iterator::max_by")
def _minby2(e, ctx, ref, args, st):
    s = toseq(e, args[0], st, ctx, ref.self_ty or "")
    a, b = mk("sym", "a"), mk("sym", "b")
    r = e.apply(args[1], [a, b], st, ctx)
    return pure(ref.name.split("::")[1], s, r)


@model("Iterator::collect", "FromIterator::from_iter", "Iterator::partition", "Iterator::unzip")
def _collect(e, ctx, ref, args, st):
    if ref.name in ("Iterator::partition", "Iterator::unzip"):
        return None
    ty = ref.gargs[1] if ref.name == "Iterator::collect" and len(ref.gargs) > 1 else (ref.gargs[0] if ref.gargs else "")
    t = strip(ty)
    m = re.match(r"(?:std::|core::)?(result|option)::(Result|Option)<(.*)", t)
    if m:
        res = m.group(2) == "Result"
        s = collect_try(e, args[0], st, ctx, res, ref)
        inner = m.group(3)
        okv = "Ok" if res else "Some"
        return maptree(s, lambda lf: mk("adt", lf.args[0], lf.args[1], (("0", wrap_coll(inner, lf.args[2][0][1])),))
                       if lf.op == "adt" and lf.args[1] == okv else lf)
    s = toseq(e, args[0], st, ctx, ref.self_ty or "")
    return wrap_coll(t, s)


def wrap_coll(t, s):
    t = re.sub(r"^(std|alloc|core)::", "", t)
    if t.startswith("string::String") or t.startswith("String"):
        return concat(s)
    if "HashSet<" in t[:40] or "BTreeSet<" in t[:40]:
        return pure("set", s)
    if "HashMap<" in t[:40] or "BTreeMap<" in t[:40]:
        return pure("map", s)
    return s


def concat(s):
    if s.op == "arr" and all(x.op == "str" for x in s.args):
        return STR("".join(x.args[0] for x in s.args))
    return pure("concat", s)


def collect_try(e, it, st, ctx, res, ref):
    from .engine import uid
    acc, out = ("R", uid()), ("R", uid())
    st[acc] = mk("arr")
    en, bad, good = (RESULT, "Err", "Ok") if res else (OPTION, "None", "Some")

    def body(x, s):
        x = e.get(x, s)
        b = isv(x, en, bad)
        s2 = dict(s)
        s2[out] = ERR(field(x, "0", "Err")) if res else NONE
        s[acc] = app(s[acc], mk("item", "push", e.deep(field(x, "0", good), s)))
        return [("err", b, s2)]
    edges = iterate(e, it, st, ctx, body, ref.self_ty or "")
    o = []
    for t, g, s in edges:
        if t == "done":
            s[out] = OK(s[acc]) if res else SOME(s[acc])
        o.append((t, g, s))
    finish(e, o, st, ctx)
    st.pop(acc, None)
    return st.pop(out)


@model("Peekable::peek")
def _peek(e, ctx, ref, args, st):
    r0 = inner_ref(e, args[0], st)
    v = e.get(r0, st)
    if not is_cur(v):
        return None
    d, p, more = cur_next(e, r0, st, ctx)
    if not exact(d) or has_effects(d):
        return None
    g, stop, x = delem(e, d, p, dict(st), ctx)
    return some_if(more, x)


# ------------------------------------------------------------ sequences
@model("Vec::new", "VecDeque::new", "Vec::with_capacity")
def _vecnew(e, ctx, ref, args, st):
    return mk("arr")


@model("String::new", "String::with_capacity")
def _strnew(e, ctx, ref, args, st):
    return STR("")


@model("HashSet::new", "HashSet::with_capacity", "BTreeSet::new")
def _setnew(e, ctx, ref, args, st):
    return pure("set", mk("arr"))


@model("HashMap::new", "BTreeMap::new", "HashMap::with_capacity")
def _mapnew(e, ctx, ref, args, st):
    return pure("HashMap::new")


@model("Vec::push", "VecDeque::push_back")
def _push(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    e.put(args[0], app(v, mk("item", "push", e.deep(args[1], st))), st)
    return UNIT


@model("String::push", "String::push_str")
def _pushs(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    x = e.get(args[1], st)
    e.put(args[0], app(v, mk("item", "push_str", x)), st)
    return UNIT


@model("PathBuf::push")
def _pushpath(e, ctx, ref, args, st):
    e.put(args[0], pure("Path::join", e.get(args[0], st), e.get(args[1], st)), st)
    return UNIT


@model("AddAssign::add_assign")
def _addassign(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    x = e.get(args[1], st)
    if "String" in (ref.self_ty or ""):
        e.put(args[0], app(v, mk("item", "push_str", x)), st)
    elif strip(ref.self_ty or "") in ("usize", "u32", "i32", "u64", "i64", "u16", "i16", "u8"):
        e.put(args[0], add(v, x), st)
    else:
        return None
    return UNIT


@model("Add::add")
def _add(e, ctx, ref, args, st):
    if "String" in (ref.self_ty or ""):
        return app(e.get(args[0], st), mk("item", "push_str", e.get(args[1], st)))
    from .engine import INTR
    if strip(ref.self_ty or "") in INTR:
        return add(e.get(args[0], st), e.get(args[1], st))
    return None


@model("Extend::extend", "Vec::extend_from_slice", "Vec::append", "String::extend")
def _extend(e, ctx, ref, args, st):
    if ref.name == "Vec::append":
        x = e.get(args[1], st)
        e.put(args[1], mk("arr"), st)
    else:
        x = toseq(e, args[1], st, ctx, ref.gargs[-1] if ref.gargs else "")
    v = e.get(args[0], st)
    t = ref.self_ty or ""
    if "String" in strip(t)[:30]:
        e.put(args[0], app(v, mk("item", "push_str", concat(x))), st)
    elif "Hash" in t[:40] or "BTree" in t[:40]:
        e.put(args[0], app(v, mk("item", "insert_all", x)), st)
    elif x.op == "call" and x.args[0] == "opt_seq":
        o = x.args[1]
        e.put(args[0], ite(as_bool(isv(o, OPTION, "Some")), app(v, mk("item", "push", field(o, "0", "Some"))), v), st)
    elif x.op == "arr":
        for y in x.args:
            v = app(v, mk("item", "push", y))
        e.put(args[0], v, st)
    elif v.op == "arr" and not v.args:
        e.put(args[0], x, st)
    else:
        e.put(args[0], app(v, mk("item", "extend", x)), st)
    return UNIT


@model("Vec::len", "String::len", "slice::len", "str::len", "HashMap::len", "BTreeMap::len", "HashSet::len",
       "StringRecord::len", "VecDeque::len")
def _len(e, ctx, ref, args, st):
    return length(e.get(args[0], st))


@model("Vec::is_empty", "String::is_empty", "slice::is_empty", "str::is_empty", "HashMap::is_empty",
       "BTreeMap::is_empty", "HashSet::is_empty", "StringRecord::is_empty")
def _is_empty(e, ctx, ref, args, st):
    return zero(length(e.get(args[0], st)))


@model("Vec::clear", "String::clear", "HashMap::clear", "BTreeMap::clear", "HashSet::clear")
def _clear(e, ctx, ref, args, st):
    n = ref.name.split("::")[0]
    e.put(args[0], STR("") if n == "String" else mk("arr") if n == "Vec" else pure("set", mk("arr")) if n == "HashSet" else pure("HashMap::new"), st)
    return UNIT


@model("Vec::truncate")
def _truncate(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    n = e.get(args[1], st)
    e.put(args[0], ite(pos(sub(length(v), n)), slice_(v, INT(0), n), v), st)
    return UNIT


@model("usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub")
def _satsub(e, ctx, ref, args, st):
    d = sub(e.get(args[0], st), e.get(args[1], st))
    return ite(pos(d), d, INT(0))


@model("Vec::pop")
def _pop(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    n = length(v)
    r = some_if(NOT(zero(n)), index(v, sub(n, INT(1))))
    if v.op == "app" and v.args[1].args[0] == "push":
        nv = v.args[0]
    else:
        nv = hoisted(lambda x: mk("call", "vec_pop", x), [v])
        nv = ite(zero(n), v, nv) if n.op == "int" else nv
    e.put(args[0], nv, st)
    return r


@model("slice::last", "slice::first", "Vec::last", "Vec::first")
def _last(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    n = length(v)
    return some_if(NOT(zero(n)), index(v, sub(n, INT(1)) if ref.name.endswith("last") else INT(0)))


@model("slice::last_mut", "slice::first_mut")
def _lastm(e, ctx, ref, args, st):
    r0 = inner_ref(e, args[0], st)
    if r0.op != "ref":
        return None
    v = e.get(r0, st)
    n = length(v)
    i = sub(n, INT(1)) if ref.name.endswith("last_mut") else INT(0)
    return some_if(NOT(zero(n)), mk("ref", r0.args[0], r0.args[1] + (("i", i),)))


def range_of(i, v):
    """(start, end) if i is a range value"""
    if i.op == "adt":
        n = i.args[0].split("::")[-1]
        if n == "Range":
            return field(i, "start"), field(i, "end")
        if n == "RangeFrom":
            return field(i, "start"), length(v)
        if n == "RangeTo":
            return INT(0), field(i, "end")
        if n == "RangeFull":
            return INT(0), length(v)
        if n == "RangeToInclusive":
            return INT(0), add(field(i, "end"), INT(1))
    if i.op == "call" and i.args[0] == "RangeInclusive::new":
        return i.args[1], add(i.args[2], INT(1))
    return None


@model("slice::get", "StringRecord::get", "str::get", "Vec::get")
def _get(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    i = e.get(args[1], st)
    r = range_of(i, v)
    if r:
        a, b = r
        g = AND(le(a, b), le(b, length(v)))
        if ref.name == "str::get":
            for x in (a, b):
                if x is not INT(0) and x is not length(v):
                    g = AND(g, pure("str::is_char_boundary", v, x))
        return some_if(g, slice_(v, a, b))
    return some_if(pos(sub(length(v), i)), index(v, i))


@model("str::split_at", "slice::split_at")
def _splitat(e, ctx, ref, args, st):
    v, i = e.get(args[0], st), e.get(args[1], st)
    n = length(v)
    g = le(i, n)
    if g is not TRUE:
        e.panic(NOT(g), "slice", ctx.span, ctx.fr.fn.key, (n, INT(0), i))
    if ref.name == "str::split_at":
        e.panic(TRUE, "event:cut", ctx.span, ctx.fr.fn.key, (v, INT(0), i))
    return mk("tup", slice_(v, INT(0), i), slice_(v, i, n))


@model("slice::get_mut")
def _getmut(e, ctx, ref, args, st):
    r0 = inner_ref(e, args[0], st)
    v = e.get(r0, st)
    i = e.get(args[1], st)
    if r0.op != "ref" or range_of(i, v):
        return None
    return some_if(pos(sub(length(v), i)), mk("ref", r0.args[0], r0.args[1] + (("i", i),)))


@model("Index::index", "IndexMut::index_mut")
def _index(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    i = e.get(args[1], st)
    t = strip(ref.self_ty or "")
    if re.search(r"(HashMap|BTreeMap)<", t[:60]):
        e.panic(NOT(pure("contains_key", v, i)), "map-index", ctx.span, ctx.fr.fn.key, (v, i))
        return pure("map_at", v, i)
    r = range_of(i, v)
    if r:
        a, b = r
        n = length(v)
        g = AND(le(a, b), le(b, n))
        if g is not TRUE:
            e.panic(NOT(g), "slice", ctx.span, ctx.fr.fn.key, (n, a, b))
        if re.match(r"(str|std::string::String|alloc::string::String)\b", t):
            e.panic(TRUE, "event:cut", ctx.span, ctx.fr.fn.key, (v, a, b))
        if ref.name == "IndexMut::index_mut":
            if a.op == "int" and a.args[0] == 0 and b is n:
                return inner_ref(e, args[0], st)
            return None
        return slice_(v, a, b)
    if t.startswith("serde_json::Value") or t.startswith("serde_json::value::Value"):
        def at(x, j):
            y = json_get(x, j)
            return mk("adt", JSON, "Null", ()) if y is False else y if y is not None else index(x, j)
        if ref.name == "IndexMut::index_mut":
            return None
        return hoisted(at, [v, i])
    g = pos(sub(length(v), i))
    if g is not TRUE:
        e.panic(NOT(g), "bounds", ctx.span, ctx.fr.fn.key, (length(v), i))
    if ref.name == "IndexMut::index_mut":
        r0 = inner_ref(e, args[0], st)
        if r0.op != "ref":
            return None
        return mk("ref", r0.args[0], r0.args[1] + (("i", i),))
    return index(v, i)


@model("Vec::retain", "Vec::retain_mut")
def _retain(e, ctx, ref, args, st):
    from .engine import uid
    v = e.get(args[0], st)
    acc = ("R", uid())
    st[acc] = mk("arr")

    def body(x, s):
        if ref.name == "Vec::retain_mut":
            cell = ("R", uid())
            s[cell] = x
            c = as_bool(e.get(e.apply(args[1], [mk("ref", cell, ())], s, ctx), s))
            x = s.pop(cell)
        else:
            c = as_bool(e.get(e.apply(args[1], [x], s, ctx), s))
        s[acc] = ite(c, app(s[acc], mk("item", "push", e.deep(x, s))), s[acc])
    edges = iterate(e, over(v), st, ctx, body)
    finish(e, edges, st, ctx)
    e.put(args[0], st.pop(acc), st)
    return UNIT


@model("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def _sortk(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    k = e.get(e.apply(args[1], [mk("sym", "x")], dict(st), ctx), st)
    e.put(args[0], pure("sorted", v, mk("lam", k)), st)
    return UNIT


@model("slice::sort", "slice::sort_unstable")
def _sort(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    e.put(args[0], pure("sorted", v, mk("lam", mk("sym", "x"))), st)
    return UNIT


@model("slice::sort_by", "slice::sort_unstable_by")
def _sortby(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    a, b = mk("sym", "x"), mk("sym", "y")
    r = e.get(e.apply(args[1], [a, b], dict(st), ctx), st)
    if r.op == "call" and r.args[0] == "Ord::cmp":
        p, q = r.args[1], r.args[2]
        if subst(p, {a: b}) is q:
            e.put(args[0], pure("sorted", v, mk("lam", p)), st)
            return UNIT
        if subst(q, {a: b}) is p:
            e.put(args[0], pure("sorted_desc", v, mk("lam", subst(q, {b: a}))), st)
            return UNIT
    e.put(args[0], pure("sorted_by", v, mk("lam", r)), st)
    return UNIT


@model("slice::reverse")
def _reverse(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    e.put(args[0], pure("reversed", v), st)
    return UNIT


@model("Ord::cmp", "PartialOrd::partial_cmp")
def _cmp(e, ctx, ref, args, st):
    r = pure("Ord::cmp", e.get(args[0], st), e.get(args[1], st))
    return r if ref.name == "Ord::cmp" else SOME(r)


@model("cmp::min", "Ord::min", "cmp::max", "Ord::max")
def _min(e, ctx, ref, args, st):
    a, b = e.get(args[0], st), e.get(args[1], st)
    if ref.name.endswith("min"):
        return ite(lt(b, a), b, a)
    return ite(lt(b, a), a, b)


@model("vec::from_elem")
def _from_elem(e, ctx, ref, args, st):
    n = e.get(args[1], st)
    if n.op == "int" and n.args[0] <= 16:
        return mk("arr", *([args[0]] * n.args[0]))
    return mk("rep", args[0], n)


@model("slice::to_vec", "slice::into_vec", "Vec::as_slice", "Vec::into_boxed_slice", "Vec::as_mut_slice",
       "boxed::box_assume_init_into_vec_unsafe", "Box::new", "Rc::new", "Arc::new",
       "str::as_bytes", "String::as_bytes", "String::as_str", "String::into_bytes", "str::to_owned",
       "Cow::into_owned", "Cow::to_mut", "Path::new", "PathBuf::as_path", "Path::to_path_buf", "OsStr::new",
       "Clone::clone", "ToOwned::to_owned", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
       "Into::into", "hint::must_use", "__private::must_use", "Box::new_uninit", "String::into_boxed_str",
       "convert::identity", "mem::drop_", "String::as_mut_str", "Box::leak", "DerefMut::deref_mut", "Option::as_deref",
       "Result::as_deref", "String::from_utf8_unchecked_", "MaybeUninit::assume_init", "hint::black_box",
       "Vec::leak", "slice::as_slice", "Option::as_slice_", "Cow::from", "Path::as_path", "str::as_str", "Box::write",
       "Option::cloned", "Option::copied", "Result::cloned", "Result::copied", "Option::as_deref_mut")
def _ident(e, ctx, ref, args, st):
    if ref.name == "Box::new_uninit":
        from .engine import uid, REF
        cell = ("H", uid())
        st[cell] = UNDEF
        return REF(cell, ())
    v = args[0]
    if ref.name == "boxed::box_assume_init_into_vec_unsafe":
        return e.get(v, st)
    if ref.name == "Into::into":
        return convert(e, ctx, ref, args, st, ref.gargs[0] if ref.gargs else "", ref.gargs[1] if len(ref.gargs) > 1 else "")
    if ref.name in ("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Option::cloned", "Option::copied", "Cow::into_owned"):
        return e.deep(e.get(v, st), st)
    return v


@model("From::from")
def _from(e, ctx, ref, args, st):
    return convert(e, ctx, ref, args, st, ref.gargs[1] if len(ref.gargs) > 1 else "", ref.gargs[0] if ref.gargs else "")


def convert(e, ctx, ref, args, st, src, dst):
    from .engine import fits, cast
    # conversions the workspace defines itself
    if ref.target and ref.target in e.w.fns:
        return None
    if ref.name == "Into::into":
        # `impl Into<U> for T` through the workspace's `From<T> for U`
        for k, lst in e.w.trait_impls.items():
            if k.endswith("From::from"):
                for imp, fk in lst:
                    if imp.get("trait_full", "").endswith("From<%s>>" % src) and strip(dst).split("::")[-1] in str(imp["self"]):
                        fn = e.w.fns.get(fk)
                        if fn:
                            ret, s2, g = e.call_fn(fn, args, st)
                            st.clear()
                            st.update(s2)
                            ctx.also(g)
                            return ret
    s, d = strip(src), strip(dst)
    if fits(s, d):
        return cast(e.get(args[0], st), s, d)
    if re.search(r"(HashMap|BTreeMap)<", d[:50]):
        return pure("map", e.get(args[0], st))
    if re.search(r"(HashSet|BTreeSet)<", d[:50]):
        return pure("set", e.get(args[0], st))
    return args[0]


@model("Deref::deref")
def _deref(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    if v.op == "static":
        w = e.const_fn(v.args[0])
        if w is not None:
            v = w
    if v.op == "call" and v.args[0] == "Lazy::new":
        return e.apply(v.args[1], [], dict(st), ctx)
    return args[0]


@model("Lazy::new", "LazyLock::new", "OnceCell::new")
def _lazy(e, ctx, ref, args, st):
    return mk("call", "Lazy::new", *args)


@model("ToString::to_string")
def _tostr(e, ctx, ref, args, st):
    t = strip((ref.gargs[0] if ref.gargs else "") or "")
    v = e.get(args[0], st)
    if t in ("str", "String", "std::string::String", "char") or "Cow<" in t:
        return v
    return pure("to_string", v)


@model("PartialEq::eq", "PartialEq::ne")
def _eq(e, ctx, ref, args, st):
    a, b = e.deep(e.get(args[0], st), st), e.deep(e.get(args[1], st), st)
    r = eq(a, b)
    return r if ref.name.endswith("eq") else NOT(r)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _ord(e, ctx, ref, args, st):
    from .engine import INTR
    a, b = e.get(args[0], st), e.get(args[1], st)
    w = ref.name.split("::")[1]
    if w in ("gt", "ge"):
        a, b = b, a
        w = {"gt": "lt", "ge": "le"}[w]
    if strip(ref.self_ty or "") in INTR:
        return lt(a, b) if w == "lt" else le(a, b)
    return as_bool(pure("lt", a, b)) if w == "lt" else NOT(pure("lt", b, a))


@model("RangeInclusive::new")
def _ri(e, ctx, ref, args, st):
    return mk("call", "RangeInclusive::new", e.get(args[0], st), e.get(args[1], st))


@model("RangeInclusive::contains", "Range::contains")
def _rc(e, ctx, ref, args, st):
    r, x = e.get(args[0], st), e.get(args[1], st)
    if r.op == "call" and r.args[0] == "RangeInclusive::new":
        return AND(le(r.args[1], x), le(x, r.args[2]))
    if r.op == "adt" and r.args[0] == RANGE:
        return AND(le(field(r, "start"), x), lt(x, field(r, "end")))
    return None


@model("slice::contains", "HashSet::contains", "BTreeSet::contains", "Vec::contains")
def _contains(e, ctx, ref, args, st):
    v, x = e.get(args[0], st), e.get(args[1], st)
    if v.op == "call" and v.args[0] == "set":
        v = v.args[1]
    if v.op == "arr":
        r = FALSE
        for y in v.args:
            r = OR(r, eq(x, y))
        return r
    return as_bool(pure("contains", v, x))


@model("HashSet::insert", "BTreeSet::insert")
def _sins(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    e.put(args[0], app(v, mk("item", "insert", e.deep(args[1], st))), st)
    return NOT(pure("contains", v, e.get(args[1], st)))


@model("HashMap::insert", "BTreeMap::insert")
def _mins(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    e.put(args[0], app(v, mk("item", "insert", mk("tup", e.deep(args[1], st), e.deep(args[2], st)))), st)
    return pure("map_get", v, e.get(args[1], st))


@model("HashMap::entry", "BTreeMap::entry")
def _entry(e, ctx, ref, args, st):
    return mk("adt", "MapEntry", None, (("m", inner_ref(e, args[0], st)), ("k", e.deep(args[1], st))))


@model("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with")
def _or(e, ctx, ref, args, st):
    en = args[0]
    if en.op != "adt" or en.args[0] != "MapEntry":
        return None
    m, k = field(en, "m"), field(en, "k")
    if m.op != "ref":
        return None
    w = ref.name.split("::")[1]
    from .engine import map_at, map_set
    if w == "or_default":
        d = default_of(e, (ref.gargs[-2] if len(ref.gargs) >= 2 else ""), ctx, st)
    elif w == "or_insert":
        d = e.deep(args[1], st)
    else:
        d = e.apply(args[1], [], st, ctx)
    cur = e.read(m.args[0], m.args[1], st)
    e.write(m.args[0], m.args[1], maptree(cur, lambda x: map_set(x, k, map_at(x, k, d))), st)
    return mk("ref", m.args[0], m.args[1] + (("key", k, d),))


@model("ByteOrder::write_u16", "ByteOrder::write_i16", "ByteOrder::write_u32", "ByteOrder::write_i32",
       "ByteOrder::write_u64", "ByteOrder::write_i64")
def _bowrite(e, ctx, ref, args, st):
    r0 = inner_ref(e, args[0], st)
    if r0.op != "ref":
        return None
    v = e.get(r0, st)
    ty = ref.name.split("write_")[1]
    order = strip(ref.self_ty or "")
    if length(v) is not INT({"16": 2, "32": 4, "64": 8}[ty[1:]]):
        return None
    how = "to_le_bytes" if "Little" in order else "to_be_bytes" if "Big" in order else None
    if how is None:
        return None
    e.put(args[0], pure("%s::%s" % (ty, how), e.get(args[1], st)), st)
    return UNIT


@model("HashMap::get", "BTreeMap::get")
def _mget(e, ctx, ref, args, st):
    return pure("map_get", e.get(args[0], st), e.get(args[1], st))


@model("HashMap::contains_key", "BTreeMap::contains_key")
def _mck(e, ctx, ref, args, st):
    return as_bool(pure("contains_key", e.get(args[0], st), e.get(args[1], st)))


@model("BTreeMap::values", "HashMap::values", "HashMap::keys", "BTreeMap::keys", "HashMap::into_values",
       "BTreeMap::into_values", "BTreeMap::into_keys", "HashMap::into_keys")
def _values(e, ctx, ref, args, st):
    m = pure("map_iter", e.get(args[0], st))
    which = "0" if ref.name.endswith("keys") else "1"
    L = mk("L", mk("over", m), 0)
    return over(rebuild("coll", (L, mk("seq", mk("it", field(index(m, mk("k", L)), which))))))


SEQ_ITERS = ["str::chars", "str::char_indices", "str::bytes", "str::lines", "str::split", "str::split_inclusive",
             "str::split_whitespace", "str::split_ascii_whitespace", "slice::split", "StringRecord::iter",
             "Reader::records", "Reader::into_records", "slice::windows", "slice::chunks", "Regex::find_iter", "str::splitn", "str::rsplit",
             "UnicodeSegmentation::graphemes", "DoubleArray::common_prefix_search", "BufRead::lines", "slice::chunks_exact",
             "UnicodeNormalization::nfc", "UnicodeNormalization::nfd", "UnicodeNormalization::nfkc",
             "UnicodeNormalization::nfkd", "str::matches", "str::match_indices", "IntoEnumIterator::iter", "str::trim_matches_"]


@model(*SEQ_ITERS)
def _seqit(e, ctx, ref, args, st):
    vals = [e.deep(e.get(a, st), st) for a in args]
    if ref.name == "StringRecord::iter":
        return over(vals[0])
    if ref.name == "slice::split":
        pred = e.apply(args[1], [mk("sym", "x")], dict(st), ctx)
        return over(pure("slice::split", vals[0], mk("lam", as_bool(pred))))
    if ref.name == "IntoEnumIterator::iter":
        return over(mk("call", "enum_iter", STR(ref.self_ty or "")))
    if ref.name == "str::split" and vals[1].op == "arr":
        pass
    return over(pure(ref.name, *vals))


@model("slice::concat", "slice::join", "str::repeat")
def _join(e, ctx, ref, args, st):
    vals = [e.deep(e.get(a, st), st) for a in args]
    if ref.name == "slice::concat":
        return concat(vals[0])
    if vals[-1].op == "str" and vals[-1].args[0] == "" and ref.name == "slice::join":
        return concat(vals[0])
    return pure(ref.name, *vals)


# ------------------------------------------------------------ options, results
def en_of(ref):
    n = ref.name.split("::")[0]
    return (OPTION, "Some", "None") if n == "Option" else (RESULT, "Ok", "Err")


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _is(e, ctx, ref, args, st):
    en, good, bad = en_of(ref)
    v = e.get(args[0], st)
    w = ref.name.split("::")[1]
    return isv(v, en, {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[w])


@model("Option::is_some_and", "Result::is_ok_and", "Option::is_none_or")
def _isand(e, ctx, ref, args, st):
    en, good, bad = en_of(ref)
    v = e.get(args[0], st)
    c = isv(v, en, good)
    els = TRUE if ref.name.endswith("_or") else FALSE
    return as_bool(e.branch(c, st, ctx, lambda s: e.get(e.apply(args[1], [field(v, "0", good)], s, ctx), s), lambda s: els))


@model("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Option::unwrap_unchecked")
def _unwrap(e, ctx, ref, args, st):
    en, good, bad = en_of(ref)
    v = e.get(args[0], st)
    c = isv(v, en, good)
    if c is not TRUE:
        e.panic(NOT(c), "unwrap", ctx.span, ctx.fr.fn.key, (v,))
        ctx.also(c)
    return field(restrict(v, c), "0", good)


@model("Result::unwrap_err", "Result::expect_err")
def _unwrap_err(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    return field(v, "0", "Err")


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default")
def _unwrap_or(e, ctx, ref, args, st):
    en, good, bad = en_of(ref)
    v = e.get(args[0], st)
    c = isv(v, en, good)
    d = args[1] if len(args) > 1 else default_of(e, ref.gargs[0] if ref.gargs else "", ctx, st)
    return ite(c, field(v, "0", good), d)


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _unwrap_or_else(e, ctx, ref, args, st):
    en, good, bad = en_of(ref)
    v = e.get(args[0], st)
    c = isv(v, en, good)
    return e.branch(c, st, ctx, lambda s: field(v, "0", good),
                    lambda s: e.apply(args[1], [] if en == OPTION else [field(v, "0", "Err")], s, ctx))


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then")
def _map(e, ctx, ref, args, st):
    en, good, bad = en_of(ref)
    v = e.get(args[0], st)
    c = isv(v, en, good)
    els = NONE if en == OPTION else mk("adt", RESULT, "Err", (("0", field(v, "0", "Err")),))
    wrap = (lambda x: mk("adt", en, good, (("0", x),))) if ref.name.endswith("::map") else (lambda x: x)
    return e.branch(c, st, ctx, lambda s: wrap(e.apply(args[1], [field(v, "0", good)], s, ctx)), lambda s: els)


@model("Option::map_or", "Option::map_or_else", "Result::map_or", "Result::map_or_else")
def _map_or(e, ctx, ref, args, st):
    en, good, bad = en_of(ref)
    v = e.get(args[0], st)
    c = isv(v, en, good)
    if ref.name.endswith("_else"):
        lo = lambda s: e.apply(args[1], [] if en == OPTION else [field(v, "0", "Err")], s, ctx)
    else:
        lo = lambda s: args[1]
    return e.branch(c, st, ctx, lambda s: e.apply(args[2], [field(v, "0", good)], s, ctx), lo)


@model("Result::map_err", "Result::or_else", "Option::or_else", "Option::or", "Result::or")
def _map_err(e, ctx, ref, args, st):
    en, good, bad = en_of(ref)
    v = e.get(args[0], st)
    c = isv(v, en, good)
    w = ref.name.split("::")[1]

    def lo(s):
        if w == "map_err":
            return ERR(e.apply(args[1], [field(v, "0", "Err")], s, ctx))
        if w == "or":
            return args[1]
        return e.apply(args[1], [] if en == OPTION else [field(v, "0", "Err")], s, ctx)
    return e.branch(c, st, ctx, lambda s: mk("adt", en, good, (("0", field(v, "0", good)),)), lo)


@model("Option::ok_or", "Option::ok_or_else")
def _ok_or(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    c = isv(v, OPTION, "Some")
    return e.branch(c, st, ctx, lambda s: OK(field(v, "0", "Some")),
                    lambda s: ERR(args[1] if ref.name.endswith("ok_or") else e.apply(args[1], [], s, ctx)))


@model("Option::transpose")
def _transpose(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    x = field(v, "0", "Some")
    return ite(isv(v, OPTION, "Some"), ite(isv(x, RESULT, "Ok"), OK(SOME(field(x, "0", "Ok"))), ERR(field(x, "0", "Err"))), OK(NONE))


@model("Result::ok", "Result::err")
def _ok(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    w = "Ok" if ref.name.endswith("ok") else "Err"
    return some_if(isv(v, RESULT, w), field(v, "0", w))


@model("Option::as_ref", "Result::as_ref", "Option::as_deref", "Option::as_slice")
def _as_ref(e, ctx, ref, args, st):
    return e.get(args[0], st)


@model("Option::as_mut")
def _as_mut(e, ctx, ref, args, st):
    r0 = inner_ref(e, args[0], st)
    if r0.op != "ref":
        return None
    v = e.get(r0, st)
    return some_if(isv(v, OPTION, "Some"), mk("ref", r0.args[0], r0.args[1] + (("f", "Some", "0"),)))


@model("Option::take", "mem::take", "mem::replace", "Option::replace")
def _take(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    if ref.name == "Option::take":
        n = NONE
    elif ref.name == "mem::take":
        n = default_of(e, ref.gargs[0] if ref.gargs else "", ctx, st)
    elif ref.name == "Option::replace":
        n = SOME(args[1])
    else:
        n = args[1]
    e.put(args[0], n, st)
    return v


@model("mem::swap")
def _swap(e, ctx, ref, args, st):
    a, b = e.get(args[0], st), e.get(args[1], st)
    e.put(args[0], b, st)
    e.put(args[1], a, st)
    return UNIT


@model("Option::filter")
def _ofilter(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    c = isv(v, OPTION, "Some")
    return e.branch(c, st, ctx, lambda s: ite(as_bool(e.get(e.apply(args[1], [field(v, "0", "Some")], s, ctx), s)), SOME(field(v, "0", "Some")), NONE),
                    lambda s: NONE)


@model("Try::branch")
def _try(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    t = ref.self_ty or ""
    from .engine import adt_name
    if re.match(r"(std|core)::option::", t):
        c = isv(v, OPTION, "Some")
        return ite(c, mk("adt", CF, "Continue", (("0", field(v, "0", "Some")),)), mk("adt", CF, "Break", (("0", NONE),)))
    c = isv(v, RESULT, "Ok")
    return ite(c, mk("adt", CF, "Continue", (("0", field(v, "0", "Ok")),)),
               mk("adt", CF, "Break", (("0", ERR(field(v, "0", "Err"))),)))


@model("FromResidual::from_residual", "Try::from_output")
def _resid(e, ctx, ref, args, st):
    if ref.name == "Try::from_output":
        t = ref.self_ty or ""
        return SOME(args[0]) if "::option::" in t else OK(args[0])
    t = ref.self_ty or ""
    if re.match(r"(std|core)::option::", t):
        return NONE
    return ERR(field(args[0], "0", "Err"))


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _fncall(e, ctx, ref, args, st):
    a = e.get(args[1], st) if len(args) > 1 else UNIT
    xs = list(a.args) if a.op == "tup" else ([] if a is UNIT else [a])
    return e.apply(args[0], xs, st, ctx)


# ------------------------------------------------------------ defaults
def default_of(e, ty, ctx, st):
    t = strip(ty)
    t = re.sub(r"^(std|alloc|core)::", "", t)
    from .engine import INTR
    if t in INTR:
        return FALSE if t == "bool" else INT(0)
    if t.startswith("string::String") or t == "str" or t == "String":
        return STR("")
    if t.startswith("vec::Vec<") or t.startswith("Vec<"):
        return mk("arr")
    if t.startswith("option::Option<") or t.startswith("Option<"):
        return NONE
    if re.match(r"collections::(\w+::)*(HashSet|BTreeSet)<", t):
        return pure("set", mk("arr"))
    if re.match(r"collections::(\w+::)*(HashMap|BTreeMap)<", t):
        return pure("HashMap::new")
    if t.startswith("std::marker::PhantomData") or "PhantomData" in t[:30]:
        return mk("cst", "zst", "PhantomData")
    return mk("call", "Default::default", STR(t))


@model("Default::default")
def _default(e, ctx, ref, args, st):
    if ref.target and ref.target in e.w.fns:
        return None
    return default_of(e, ref.self_ty or ctx.destty, ctx, st)


# ------------------------------------------------------------ writers, readers
@model("Write::write_all", "Write::write", "Write::flush", "WriteBytesExt::write_u32", "WriteBytesExt::write_u16",
       "WriteBytesExt::write_i16", "WriteBytesExt::write_i32", "WriteBytesExt::write_u8", "WriteBytesExt::write_u64",
       "WriteBytesExt::write_i64", "bincode::serialize_into", "Write::write_fmt", "WriteBytesExt::write_i8")
def _write(e, ctx, ref, args, st):
    w = inner_ref(e, args[0], st)
    v = e.get(w, st)
    name = ref.name.split("::")[1]
    if w.op == "ref" and w.args[0] == ("P", "stdout") and not w.args[1]:
        if name == "flush":
            return OK(UNIT)
        if name in ("write_all", "write_fmt"):
            printed(e, e.deep(e.get(args[1], st), st), st)
            return OK(UNIT)
    xs = [e.deep(e.get(a, st), st) for a in args[1:]]
    if name.startswith("write_") and ref.trait and "WriteBytesExt" in ref.trait:
        en = next((g for g in ref.gargs[1:] if "Endian" in g), "?")
        xs.append(STR(en.split("::")[-1]))
    it = mk("item", name, *xs)
    if w.op == "ref":
        e.put(w, app(v, it), st)
    else:
        e.panic(TRUE, "event:" + name, ctx.span, ctx.fr.fn.key, (v,) + tuple(xs))
    return pure("io:" + name, v, *xs)


@model("BufWriter::into_inner", "IntoInner::into_inner")
def _into_inner(e, ctx, ref, args, st):
    w = e.get(args[0], st)
    if w.op == "ref":
        return None
    v = maptree(w, lambda x: app(x, mk("item", "into_inner")))
    # what was written stays known, the writer itself has been moved
    st[("L", ctx.fr.id, ("into_inner", ctx.span))] = v
    r = pure("io:into_inner", w)
    ok = isv(r, RESULT, "Ok")
    return ite(ok, OK(pure("inner", v)),
               ERR(field(r, "0", "Err")))


@model("fs::write")
def _fs_write(e, ctx, ref, args, st):
    p, data = [e.deep(e.get(a, st), st) for a in args[:2]]
    f = field(pure("File::create", p), "0", "Ok")
    st[("L", ctx.fr.id, ("fs::write", ctx.span))] = app(f, mk("item", "write_all", data))
    return pure("io:write_all", f, data)


@model("Read::read_to_end", "Read::read_to_string", "BufRead::read_line")
def _read(e, ctx, ref, args, st):
    r = e.deep(e.get(args[0], st), st)
    b = e.get(args[1], st)
    data = pure("io_read:" + ref.name.split("::")[1], r)
    e.put(args[1], app(b, mk("item", "push_str" if ref.name != "Read::read_to_end" else "extend", data))
          if not (b.op == "arr" and not b.args) else data, st)
    ok = pure("io:" + ref.name.split("::")[1], r)
    e.havoc(args[0], "advance", 0, [r], st) if ref.name == "BufRead::read_line" else None
    return ok


def printed(e, a, st):
    """append a (format arguments or a string) to what the command prints"""
    out = ("P", "stdout")
    ps = decode_fmt(a) if a.op == "call" and a.args[0] == "fmt_args" else [a] if a.op != "call" else None
    if ps is None and len(a.args) == 2 and a.args[1].op == "str":
        ps = [a.args[1]]
    v = st[out]
    for p in ps if ps is not None else [pure("format", a)]:
        v = app(v, mk("item", "push_str", p))
    st[out] = v


@model("io::stdout", "Stdout::lock")
def _stdout(e, ctx, ref, args, st):
    return mk("ref", ("P", "stdout"), ()) if ("P", "stdout") in st else None


@model("io::_print", "io::_eprint")
def _print(e, ctx, ref, args, st):
    out = ("P", "stdout")
    if out in st and ref.name == "io::_print":
        printed(e, e.deep(e.get(args[0], st), st), st)
        return UNIT
    e.panic(TRUE, "event:" + ref.name.split("::_")[1], ctx.span, ctx.fr.fn.key, tuple(e.deep(e.get(a, st), st) for a in args))
    return UNIT


@model("__private_api::log", "__private_api::enabled")
def _log(e, ctx, ref, args, st):
    return UNIT


@model("log::max_level")
def _maxlevel(e, ctx, ref, args, st):
    return mk("cst", "loglevel", "")


@model("Arguments::new", "Arguments::from_str")
def _fmtargs(e, ctx, ref, args, st):
    return pure("fmt_args", *[e.deep(e.get(a, st), st) for a in args])


@model("Argument::new_display", "Argument::new_debug")
def _fmtarg(e, ctx, ref, args, st):
    v = e.deep(e.get(args[0], st), st)
    if ref.name.endswith("display"):
        return mk("adt", "Disp", None, (("v", v), ("ty", STR(strip(ref.gargs[-1] if ref.gargs else "")))))
    return mk("adt", "Dbg", None, (("v", v),))


@model("fmt::format")
def _format(e, ctx, ref, args, st):
    a = args[0]
    if a.op == "call" and a.args[0] == "fmt_args":
        if len(a.args) == 2 and a.args[1].op == "str":
            return a.args[1]
        pieces = decode_fmt(a)
        if pieces is not None:
            v = STR("")
            for p in pieces:
                v = app(v, mk("item", "push_str", p)) if not (v.op == "str" and v.args[0] == "") else p
            return v
    return pure("format", a)


def decode_fmt(a):
    """pieces of a format string whose arguments are plain `{}` of strings.
    The template is a byte string: literal runs (length byte, bytes) and
    argument slots."""
    if len(a.args) != 3 or a.args[1].op != "cst" or a.args[1].args[0] != "bytes":
        return None
    t = a.args[1].args[1]
    args = a.args[2]
    if args.op != "arr":
        return None
    out = []
    i = 0
    n = 0
    while i < len(t):
        b = t[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(STR(t[i + 1:i + 1 + b].decode("utf8", "replace")))
            i += 1 + b
        elif b == 0xC0:
            if n >= len(args.args):
                return None
            x = args.args[n]
            n += 1
            if x.op != "adt" or x.args[0] != "Disp":
                return None
            ty = field(x, "ty").args[0]
            v = field(x, "v")
            if ty in ("str", "String", "std::string::String", "char") or "Cow<" in ty:
                out.append(v)
            else:
                out.append(pure("to_string", v))
            i += 1
        else:
            return None
    return out if out else [STR("")]


@model("Option::context", "Result::context", "Context::context", "Context::with_context")
def _ctx(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    return ite(isv(v, RESULT, "Ok"), OK(field(v, "0", "Ok")), ERR(pure("error_context", field(v, "0", "Err"))))


@model("Error::msg", "Trait::new", "__private::format_err", "Error::context", "Adhoc::new", "Error::new")
def _err(e, ctx, ref, args, st):
    return pure("error", *[e.deep(e.get(a, st), st) for a in args])


@model("TraitKind::anyhow_kind", "AdhocKind::anyhow_kind")
def _kind(e, ctx, ref, args, st):
    return UNIT


@model("str::len_", "char::len_utf8_")
def _never(e, ctx, ref, args, st):
    return None


@model("str::starts_with", "str::ends_with", "str::contains", "str::find", "str::trim", "str::to_lowercase",
       "str::to_uppercase", "str::replace", "str::trim_start_matches", "str::split_once", "str::trim_end_matches", "str::trim_matches",
       "str::is_char_boundary", "str::trim_start", "str::trim_end")
def _strfn(e, ctx, ref, args, st):
    return pure(ref.name, *[e.deep(e.get(a, st), st) for a in args])


@model("Captures::get", "Captures::get_match")
def _capture(e, ctx, ref, args, st):
    """the whole match always exists"""
    v = e.deep(e.get(args[0], st), st)
    if ref.name.endswith("get_match"):
        return mk("call", "Captures::whole", v)
    i = e.get(args[1], st)
    return SOME(mk("call", "Captures::whole", v)) if i is INT(0) else pure(ref.name, v, i)


@model("Match::end", "Match::len", "Match::range")
def _match(e, ctx, ref, args, st):
    m = e.deep(e.get(args[0], st), st)
    a, n = pure("Match::start", m), length(pure("Match::as_str", m))
    return n if ref.name.endswith("len") else add(a, n) if ref.name.endswith("end") else mk("adt", RANGE, None, (("start", a), ("end", add(a, n))))


@model("str::strip_prefix", "str::strip_suffix")
def _strip(e, ctx, ref, args, st):
    v, p = (e.deep(e.get(a, st), st) for a in args)
    if p.op == "int":
        n = INT(len(chr(p.args[0]).encode()))
    elif p.op == "str":
        n = INT(len(p.args[0].encode()))
    else:
        return pure(ref.name, v, p)
    if ref.name.endswith("prefix"):
        return some_if(as_bool(pure("str::starts_with", v, p)), slice_(v, n, length(v)))
    return some_if(as_bool(pure("str::ends_with", v, p)), slice_(v, INT(0), sub(length(v), n)))


@model("char::from_u32_unchecked", "char::from_u32")
def _chr(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    return v if ref.name.endswith("unchecked") else pure("char::from_u32", v)


@model("str::parse", "FromStr::from_str")
def _parse(e, ctx, ref, args, st):
    if ref.target and ref.target in e.w.fns:
        return None
    ty = ref.gargs[-1] if ref.name == "str::parse" else (ref.self_ty or "")
    if ref.name == "str::parse":
        cands = [(i, k) for i, k in e.w.trait_impls.get("core::str::traits::FromStr::from_str", [])
                 if str(i["self"]).split("::")[-1] == ty.split("::")[-1]]
        if cands and cands[0][1] in e.w.fns:
            ret, s2, g = e.call_fn(e.w.fns[cands[0][1]], args, st)
            st.clear()
            st.update(s2)
            ctx.also(g)
            return ret
    return pure("parse<%s>" % strip(ty), e.get(args[0], st))


@model("NonZero::new", "NonZero::get")
def _nz(e, ctx, ref, args, st):
    v = e.get(args[0], st)
    if ref.name.endswith("get"):
        return v
    return some_if(NOT(zero(v)), v)


@model("ByteOrder::read_u32", "ByteOrder::read_i16", "ByteOrder::read_u16", "ByteOrder::read_u64", "ByteOrder::read_i32", "ByteOrder::read_i64")
def _bo(e, ctx, ref, args, st):
    ty = ref.name.split("read_")[1]
    n = {"u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}[ty]
    v = e.get(args[0], st)
    return pure("decode_%s_%s" % (ty, (ref.self_ty or "?").split("::")[-1]), slice_(v, INT(0), INT(n)))


@model("u32::from_le_bytes", "u16::from_le_bytes", "i16::from_le_bytes", "u64::from_le_bytes", "i32::from_le_bytes",
       "u32::from_be_bytes", "u16::from_be_bytes", "i16::from_be_bytes", "u64::from_be_bytes", "i32::from_be_bytes")
def _flb(e, ctx, ref, args, st):
    ty = ref.name.split("::")[0]
    en = "LittleEndian" if "_le_" in ref.name else "BigEndian"
    v = e.get(args[0], st)
    if v.op == "arr":
        bs = v.args
        if bs and bs[0].op == "idx" and all(b.op == "idx" and b.args[0] is bs[0].args[0] for b in bs):
            o = bs[0].args[1]
            if all(sub(b.args[1], o) is INT(i) for i, b in enumerate(bs)):
                v = slice_(bs[0].args[0], o, add(o, INT(len(bs))))
    return pure("decode_%s_%s" % (ty, en), v)


@model("TryInto::try_into", "TryFrom::try_from")
def _tryinto(e, ctx, ref, args, st):
    src, dst = (ref.gargs[0], ref.gargs[1]) if len(ref.gargs) > 1 else ("", "")
    if ref.name == "TryFrom::try_from":
        src, dst = dst, src
    s, d = strip(src), strip(dst)
    from .engine import fits, INTR, cast
    v = e.get(args[0], st)
    if s in INTR and d in INTR:
        if fits(s, d):
            return OK(v)
        return pure("try_%s" % d, v)
    if d.startswith("["):
        m = re.search(r";\s*(\d+)", d)
        if m:
            c = zero(sub(length(v), INT(int(m.group(1)))))
            return ite(c, OK(v), ERR(pure("error")))
        return OK(v)
    return None


@model("num::unsigned_abs_")
def _nope(e, ctx, ref, args, st):
    return None


@model("DoubleArrayBuilder::build")
def _da_build(e, ctx, ref, args, st):
    """the trie library panics without keys and on keys with NUL"""
    v = e.deep(e.get(args[0], st), st)
    e.panic(zero(length(v)), "contract:no keys", ctx.span, ctx.fr.fn.key, (v,))
    L = mk("L", mk("over", v), -1)
    key = field(index(v, mk("k", L)), "0")
    from .engine import exists
    e.panic(exists(L, pure("has_nul", key)), "contract:NUL in a key", ctx.span, ctx.fr.fn.key, (v,))
    return pure("DoubleArrayBuilder::build", v)


# ------------------------------------------------------------ JSON values built by the program
# A value made from x is Json{v: x, ty}; an object with constant keys is Value::Object{json_map(k, v, ..)}.
@model("Map::new", "Map::with_capacity")
def _jmap(e, ctx, ref, args, st):
    return pure("json_map") if "serde_json" in (ref.self_ty or "") + ctx.destty else None


@model("Map::insert")
def _jins(e, ctx, ref, args, st):
    m = e.get(args[0], st)
    k = e.deep(e.get(args[1], st), st)
    if m.op != "call" or m.args[0] != "json_map" or k.op != "str":
        return None
    v = e.deep(e.get(args[2], st), st)
    kv = list(m.args[1:])
    old = NONE
    for i in range(0, len(kv), 2):
        if kv[i] is k:
            old = SOME(kv[i + 1])
            kv[i + 1] = v
            break
    else:
        kv += [k, v]
    e.put(args[0], pure("json_map", *kv), st)
    return old


JSON = "serde_json::Value"


@model("serde_json::to_value", "value::to_value")
def _tojson(e, ctx, ref, args, st):
    v = e.deep(e.get(args[0], st), st)
    ty = strip(ref.gargs[-1] if ref.gargs else "")
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    return OK(mk("adt", "Json", None, (("v", v), ("ty", STR(ty)))))


def json_elem(ty):
    m = re.match(r"^(?:std::vec::|alloc::vec::)?Vec<(.*)>$", ty) or re.match(r"^\[(.*?)(?:; .*)?\]$", ty)
    return m.group(1) if m else None


def is_text(ty):
    return bool(re.match(r"^&?(?:'\w+ )?(?:(std|alloc|core)::)?(str|String|string::String|borrow::Cow<'?.*str>|Cow<'?.*str>)$", ty))


@model("Value::as_str")
def _asstr(e, ctx, ref, args, st):
    def f(v):
        if v.op == "adt" and v.args[0] == "Json" and is_text(field(v, "ty").args[0]):
            return SOME(field(v, "v"))
        if v.op == "adt" and v.args[0].endswith("Value") and v.args[1] == "String":
            return SOME(field(v, "0", "String"))
        return pure("Value::as_str", v)
    return hoisted(f, [e.deep(e.get(args[0], st), st)])


@model("Value::as_array", "Value::as_array_mut")
def _asarr(e, ctx, ref, args, st):
    def f(v):
        if v.op == "adt" and v.args[0] == "Json":
            el = json_elem(field(v, "ty").args[0])
            if el is not None:
                x = field(v, "v")
                L = mk("L", mk("over", x), 0)
                return SOME(rebuild("coll", (L, mk("seq", mk("it", mk("adt", "Json", None, (("v", index(x, mk("k", L))), ("ty", STR(el)))))))))
        if v.op == "adt" and v.args[0].endswith("Value") and v.args[1] == "Array":
            return SOME(field(v, "0", "Array"))
        return pure("Value::as_array", v)
    if ref.name == "Value::as_array_mut":
        return None
    return hoisted(f, [e.deep(e.get(args[0], st), st)])


def json_get(v, k):
    """the value under the key, None if not known"""
    if v.op == "adt" and v.args[0].endswith("Value") and v.args[1] == "Object":
        m = field(v, "0", "Object")
        if m.op == "call" and m.args[0] == "json_map" and k.op == "str":
            for i in range(1, len(m.args), 2):
                if m.args[i] is k:
                    return m.args[i + 1]
            return False
    return None


OPENOPT = "OpenOptions"


@model("OpenOptions::new", "File::options")
def _oo_new(e, ctx, ref, args, st):
    return mk("adt", OPENOPT, None, tuple((n, FALSE) for n in ("read", "write", "append", "truncate", "create", "create_new")))


@model("OpenOptions::read", "OpenOptions::write", "OpenOptions::append", "OpenOptions::truncate", "OpenOptions::create", "OpenOptions::create_new")
def _oo_set(e, ctx, ref, args, st):
    o = e.get(args[0], st)
    if o.op != "adt" or o.args[0] != OPENOPT:
        return pure(ref.name, o, e.get(args[1], st))
    e.put(args[0], upd_field(o, ref.name.split("::")[-1], None, e.get(args[1], st)), st)
    return args[0]


@model("OpenOptions::open")
def _oo_open(e, ctx, ref, args, st):
    o = e.get(args[0], st)
    p = e.deep(args[1], st)
    if o.op == "adt" and o.args[0] == OPENOPT:
        on = {n for n, v in o.args[2] if v is TRUE}
        known = all(v in (TRUE, FALSE) for _, v in o.args[2])
        if known and on in ({"write", "create", "truncate"}, {"read", "write", "create", "truncate"}):
            return pure("File::create", p)
        if known and on == {"read"}:
            return pure("File::open", p)
        if known:
            return pure("OpenOptions::open", STR("+".join(sorted(on))), p)
    return pure("OpenOptions::open", o, p)
