"""Hash-consed value terms with decision-diagram conditionals.

A term denotes the value an expression has, as a function of the analysed
function's parameters.  Conditionals are kept as ordered decision diagrams over
boolean atoms, integers in linear normal form, and projections of constructed
values are resolved, so that differently written code computing the same value
has the same term."""
import sys

sys.setrecursionlimit(20000)

_table = {}
_count = [0]


class T(complex):
    """a term.  A number only to have a hash that is quick and the same in every run (sets of
    terms are then gone through in the same order every time); equality is identity"""
    __slots__ = ("op", "args", "id", "_s", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op,) + args
    t = _table.get(k)
    if t is None:
        t = T(0.5, _count[0])
        t.op = op
        t.args = args
        t.id = _count[0]
        t._s = None
        _count[0] += 1
        _table[k] = t
    return t


def isT(x):
    return isinstance(x, T)


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("unit")
UNDEF = mk("undef")


def reset_caches():
    _ite_c.clear(); _as_c.clear(); _res_c.clear(); _assume_c.clear()


def INT(v):
    return mk("int", v)


def STR(s):
    return mk("str", s)


def bconst(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- enum info
VARIANTS = {}  # enum name -> list of variant names


def is_leaf(t):
    return t.op != "cond"


# ------------------------------------------------------- atoms and implications
def _linparts(atom):
    """(kind, base linear part, constant) of pos/zero atoms"""
    l = atom.args[0]
    c, ts = lin_parts(l)
    return (ts, c)


def implied(known, val, atom):
    """value of `atom` implied by `known` == val, or None"""
    if known is atom:
        return val
    ko, ao = known.op, atom.op
    if ko == "is" and ao == "is" and known.args[0] is atom.args[0]:
        if val and known.args[2] != atom.args[2]:
            return False
        if not val and known.args[2] != atom.args[2]:
            vs = VARIANTS.get(known.args[1])
            if vs and len(vs) == 2:
                return True
        return None
    if ko == "eq" and ao == "eq" and val:
        # x == const1 excludes x == const2
        ka, kb = known.args
        for x, c in ((ka, kb), (kb, ka)):
            if c.op in CONSTS:
                for y, d in (atom.args, atom.args[::-1]):
                    if y is x and d.op in CONSTS and d is not c:
                        return False
        return None
    if ko == "eq" and val and ao == "zero":
        # x == "literal" fixes len(x)
        for x, c in ((known.args[0], known.args[1]), (known.args[1], known.args[0])):
            if c.op == "str":
                k, ts = lin_parts(atom.args[0])
                if len(ts) == 1 and ts[0][1] == 1 and ts[0][0].op == "len" and ts[0][0].args[0] is x:
                    return len(c.args[0].encode()) + k == 0
        return None
    if ko in ("pos", "zero") and ao in ("pos", "zero"):
        kt, kc = _linparts(known)
        at, ac = _linparts(atom)
        s = 0
        if kt == at:
            s = 1
        elif len(kt) == len(at) and all(a is b and x == -y for (a, x), (b, y) in zip(kt, at)):
            s = -1
        if not s:
            return None
        # known is about X + kc; atom about s*X + ac
        lo = hi = None  # bounds on X
        if ko == "zero":
            if val:
                lo = hi = -kc
            else:
                if ao == "pos" and len(kt) == 1 and kt[0][1] == 1 and kt[0][0].op == "len" and kc == 0 and s == 1:
                    return True if ac >= 0 else None
                if ao == "zero" and s * (-kc) + ac == 0:
                    return False
                return None
        else:
            if val:
                lo = 1 - kc
            else:
                hi = -kc
        if s == 1:
            alo = None if lo is None else lo + ac
            ahi = None if hi is None else hi + ac
        else:
            alo = None if hi is None else -hi + ac
            ahi = None if lo is None else -lo + ac
        if ao == "pos":
            if alo is not None and alo > 0:
                return True
            if ahi is not None and ahi <= 0:
                return False
        else:
            if alo is not None and ahi is not None and alo == ahi == 0:
                return True
            if alo is not None and alo > 0:
                return False
            if ahi is not None and ahi < 0:
                return False
        return None
    return None


CONSTS = {"int", "str", "bool", "unit", "bytes", "cst"}

_akey = {}


def _family(atom):
    """atoms that can imply each other share a family"""
    f = _akey.get(atom)
    if f is None:
        f = set()
        if atom.op == "is":
            f.add(("is", atom.args[0].id))
        elif atom.op == "eq":
            for a in atom.args:
                if a.op not in CONSTS:
                    f.add(("v", a.id))
        elif atom.op in ("pos", "zero"):
            c, ts = lin_parts(atom.args[0])
            f.add(("lin", tuple(t.id for t, _ in ts)))
            if len(ts) == 1 and ts[0][0].op == "len":
                f.add(("v", ts[0][0].args[0].id))
        f = frozenset(f)
        _akey[atom] = f
    return f


_assume_c = {}


def assume(t, atom, val):
    """simplify the decision diagram t given atom == val"""
    if t.op != "cond":
        return t
    k = (t, atom, val)
    r = _assume_c.get(k)
    if r is not None:
        return r
    a, hi, lo = t.args
    iv = None
    if a is atom:
        iv = val
    elif _family(a) & _family(atom):
        iv = implied(atom, val, a)
    if iv is True:
        r = assume(hi, atom, val)
    elif iv is False:
        r = assume(lo, atom, val)
    else:
        h2, l2 = assume(hi, atom, val), assume(lo, atom, val)
        r = t if (h2 is hi and l2 is lo) else _node(a, h2, l2)
    _assume_c[k] = r
    return r


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    return mk("cond", atom, hi, lo)


def cond(atom, hi, lo):
    """atom is an irreducible boolean; hi/lo are ordered diagrams below it"""
    if atom is TRUE:
        return hi
    if atom is FALSE:
        return lo
    if _family(atom):
        hi = assume(hi, atom, True)
        lo = assume(lo, atom, False)
    return _node(atom, hi, lo)


_ite_c = {}


def _top(t):
    return t.args[0].id if t.op == "cond" else 1 << 60


def _cof(t, a, v):
    if t.op == "cond" and t.args[0] is a:
        return t.args[1] if v else t.args[2]
    return t


def as_bool(t):
    if t is TRUE or t is FALSE:
        return t
    r = _as_c.get(t)
    if r is not None:
        return r
    if t.op == "cond":
        a, hi, lo = t.args
        h2, l2 = as_bool(hi), as_bool(lo)
        if h2 is hi and l2 is lo:
            r = t
        else:
            r = ite(mk("cond", a, TRUE, FALSE), h2, l2)
    elif t.op == "not":
        r = NOT(t.args[0])
    else:
        r = mk("cond", t, TRUE, FALSE)
    _as_c[t] = r
    return r


_as_c = {}


def ite(c, a, b):
    c = as_bool(c)
    return _ite(c, a, b)


def _ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_c.get(k)
    if r is not None:
        return r
    m = min(_top(c), _top(a), _top(b))
    for x in (c, a, b):
        if x.op == "cond" and x.args[0].id == m:
            at = x.args[0]
            break
    hc, ha, hb = _cof(c, at, True), _cof(a, at, True), _cof(b, at, True)
    lc, la, lb = _cof(c, at, False), _cof(a, at, False), _cof(b, at, False)
    if _family(at):
        hc, ha, hb = assume(hc, at, True), assume(ha, at, True), assume(hb, at, True)
        lc, la, lb = assume(lc, at, False), assume(la, at, False), assume(lb, at, False)
    r = cond(at, _ite(hc, ha, hb), _ite(lc, la, lb))
    _ite_c[k] = r
    return r


def AND(a, b):
    return ite(a, as_bool(b), FALSE)


def OR(a, b):
    return ite(a, TRUE, as_bool(b))


def NOT(a):
    return ite(a, FALSE, TRUE)


_res_c = {}


def restrict(f, c):
    """simplify f using the care condition c"""
    if c is TRUE or f.op != "cond" or c is FALSE:
        return f
    k = (f, c)
    r = _res_c.get(k)
    if r is not None:
        return r
    if c.op != "cond":
        c = as_bool(c)
        if c.op != "cond":
            return f
    a, ch, cl = c.args
    if a.id < f.args[0].id:
        if cl is FALSE:
            r = restrict(assume(f, a, True), ch)
        elif ch is FALSE:
            r = restrict(assume(f, a, False), cl)
        else:
            r = restrict(f, OR(ch, cl))
    elif a is f.args[0]:
        if cl is FALSE:
            r = restrict(assume(f, a, True), ch)
        elif ch is FALSE:
            r = restrict(assume(f, a, False), cl)
        else:
            r = cond(a, restrict(f.args[1], ch), restrict(f.args[2], cl))
    else:
        fa = f.args[0]
        r = cond(fa, restrict(f.args[1], assume(c, fa, True)), restrict(f.args[2], assume(c, fa, False)))
    _res_c[k] = r
    return r


def leaves(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "cond":
        leaves(t.args[1], acc, seen)
        leaves(t.args[2], acc, seen)
    elif t not in acc:
        acc.append(t)
    return acc


def cases(t, limit=4000):
    """[(list of (atom, bool)), leaf] over the paths of the diagram"""
    out = []

    def go(u, p):
        if len(out) > limit:
            return
        if u.op == "cond":
            go(u.args[1], p + [(u.args[0], True)])
            go(u.args[2], p + [(u.args[0], False)])
        else:
            out.append((p, u))

    go(t, [])
    return out


def maptree(t, f, memo=None):
    """apply f to the leaves of a diagram (f returns a term, maybe a diagram)"""
    if t.op != "cond":
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        a, hi, lo = t.args
        r = ite(mk("cond", a, TRUE, FALSE), maptree(hi, f, memo), maptree(lo, f, memo))
        memo[t] = r
    return r


def nleaves(t, cap=64):
    n = 0
    st = [t]
    seen = set()
    while st and n < cap:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "cond":
            st.append(u.args[1])
            st.append(u.args[2])
        else:
            n += 1
    return n


HOIST = 6


def hoisted(f, args):
    """f(*args) with small conditionals among the arguments moved outwards"""
    n = 1
    idx = []
    for i, a in enumerate(args):
        if isT(a) and a.op == "cond":
            k = nleaves(a, HOIST + 1)
            if n * k <= HOIST:
                n *= k
                idx.append(i)
    if not idx:
        return f(*args)
    i = idx[0]

    def g(leaf):
        b = list(args)
        b[i] = leaf
        return hoisted(f, b)

    return maptree(args[i], g)


# ---------------------------------------------------------------- integers
def lin_parts(t):
    if t.op == "int":
        return t.args[0], ()
    if t.op == "lin":
        return t.args[0], t.args[1]
    return 0, ((t, 1),)


def mklin(c, d):
    ts = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda p: p[0].id))
    if not ts:
        return INT(c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return mk("lin", c, ts)


def add(a, b, kb=1):
    def f(x, y):
        c1, t1 = lin_parts(x)
        c2, t2 = lin_parts(y)
        d = dict(t1)
        for t, k in t2:
            d[t] = d.get(t, 0) + kb * k
        return mklin(c1 + kb * c2, d)

    return hoisted(f, [a, b])


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    def f(x):
        c, ts = lin_parts(x)
        return mklin(c * k, {t: v * k for t, v in ts})

    return hoisted(f, [a])


def mul(a, b):
    if a.op == "int":
        return mulc(b, a.args[0])
    if b.op == "int":
        return mulc(a, b.args[0])

    def f(x, y):
        if x.op == "int" or y.op == "int":
            return mul(x, y)
        c1, t1 = lin_parts(x)
        c2, t2 = lin_parts(y)
        d = {}
        for t, k in t1:
            if c2:
                d[t] = d.get(t, 0) + k * c2
        for t, k in t2:
            if c1:
                d[t] = d.get(t, 0) + k * c1
        for t, k in t1:
            for u, j in t2:
                p = mk("prod", *sorted((t, u), key=lambda z: z.id))
                d[p] = d.get(p, 0) + k * j
        return mklin(c1 * c2, d)

    return hoisted(f, [a, b])


def pieces_of(t):
    """the number of pieces a text is split into: never zero"""
    return t.op == "len" and t.args[0].op == "call" and t.args[0].args[0] in ("str::split", "str::rsplit")


def nonneg(t):
    return t.op in ("len", "k", "lenk")


def pos(l):
    """l > 0 over the integers"""
    def f(x):
        c, ts = lin_parts(x)
        if not ts:
            return bconst(c > 0)
        if c >= 1 and all(k > 0 and nonneg(t) for t, k in ts):
            return TRUE
        if c <= 0 and all(k < 0 and nonneg(t) for t, k in ts):
            return FALSE
        if len(ts) == 1 and ts[0][1] == 1 and c == 0 and nonneg(ts[0][0]):
            return NOT(zero(x))
        if ts[0][1] < 0:
            return NOT(pos(sub(INT(1), x)))
        return mk("pos", x)

    return hoisted(f, [l])


def zero(l):
    def f(x):
        c, ts = lin_parts(x)
        if not ts:
            return bconst(c == 0)
        if ts[0][1] < 0:
            x = mulc(x, -1)
            c, ts = lin_parts(x)
        if c > 0 and all(k > 0 and nonneg(t) for t, k in ts):
            return FALSE
        if c == 0 and all(k > 0 and nonneg(t) for t, k in ts) and any(pieces_of(t) for t, k in ts):
            return FALSE
        if len(ts) == 1 and c and abs(c) % abs(ts[0][1]):
            return FALSE
        return mk("zero", x)

    return hoisted(f, [l])


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return NOT(lt(b, a))


# ---------------------------------------------------------------- equality
def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if any(v.op in ("int", "lin", "len", "cast", "psum", "sum") for v in (x, y)):
            return zero(sub(x, y))
        if x.op in CONSTS and y.op in CONSTS:
            return FALSE
        if x is TRUE or x is FALSE:
            x, y = y, x
        if y is TRUE:
            return as_bool(x)
        if y is FALSE:
            return NOT(x)
        for p, q in ((x, y), (y, x)):
            if p.op == "str" and p.args[0] == "":
                return zero(length(q))
        for p, q in ((x, y), (y, x)):
            if p.op == "adt" and not p.args[2]:
                if q.op == "adt":
                    return bconst(q.args[0] == p.args[0] and q.args[1] == p.args[1]) if not q.args[2] else FALSE
                if p.args[1] is not None:
                    return isv(q, p.args[0], p.args[1])
        if x.op == "adt" and y.op == "adt":
            if x.args[0] != y.args[0] or x.args[1] != y.args[1]:
                return FALSE
            r = TRUE
            for (n1, v1), (n2, v2) in zip(x.args[2], y.args[2]):
                r = AND(r, eq(v1, v2))
            return r
        if x.op == "tup" and y.op == "tup" and len(x.args) == len(y.args):
            r = TRUE
            for v1, v2 in zip(x.args, y.args):
                r = AND(r, eq(v1, v2))
            return r
        if x.id > y.id:
            x, y = y, x
        return mk("eq", x, y)

    return hoisted(f, [a, b])


# while set: (value, enum) -> variant name taken for granted, or None
ASSUME = [None]


def isv(x, enum, variant):
    """boolean: x is `variant` of `enum`"""
    def f(u):
        while u.op == "upd":
            u = u.args[0]
        if u.op == "adt":
            return bconst(u.args[1] == variant)
        vs = VARIANTS.get(enum)
        if vs and len(vs) == 1:
            return TRUE
        if ASSUME[0] is not None:
            v = ASSUME[0](u, enum)
            if v is not None:
                return bconst(v == variant)
        if vs and len(vs) == 2 and variant == vs[0]:
            return NOT(mk("is", u, enum, vs[1]))
        return mk("is", u, enum, variant)

    return maptree(x, f)


# ---------------------------------------------------------------- structures
def adt(name, variant, fields):
    return mk("adt", name, variant, tuple(fields))


def tup(*xs):
    return mk("tup", *xs)


OPTION = "std::option::Option"
RESULT = "std::result::Result"
VARIANTS[OPTION] = ["None", "Some"]
VARIANTS[RESULT] = ["Ok", "Err"]
CF = "std::ops::ControlFlow"
VARIANTS[CF] = ["Continue", "Break"]


def SOME(x):
    return adt(OPTION, "Some", (("0", x),))


NONE = adt(OPTION, "None", ())


def OK(x):
    return adt(RESULT, "Ok", (("0", x),))


def ERR(x):
    return adt(RESULT, "Err", (("0", x),))


def field(t, name, variant=None):
    """projection; variant is None for structs and tuples"""
    if t.op == "cond":
        def g(leaf):
            if leaf.op == "adt" and variant is not None and leaf.args[1] != variant:
                return UNDEF
            return field(leaf, name, variant)
        # branches of another variant are unreachable under the projection
        return drop_undef(maptree(t, g))
    if t.op == "adt":
        if variant is not None and t.args[1] != variant:
            return UNDEF
        for n, v in t.args[2]:
            if n == name:
                return v
        return UNDEF
    if t.op == "tup":
        return t.args[int(name)]
    if t.op == "clo":
        return t.args[1][int(name)]
    if t.op == "upd":
        for e, v in t.args[1]:
            if e == (variant, name):
                return v
        return field(t.args[0], name, variant)
    if t is UNDEF:
        return UNDEF
    if t.op == "arr":
        return t.args[int(name)]
    return mk("f", t, variant, name)


def drop_undef(t):
    if t.op != "cond":
        return t
    a, hi, lo = t.args
    h, l = drop_undef(hi), drop_undef(lo)
    if h is UNDEF:
        return l
    if l is UNDEF:
        return h
    if h is hi and l is lo:
        return t
    return ite(mk("cond", a, TRUE, FALSE), h, l)


def upd_field(t, name, variant, val):
    if t.op == "cond":
        return maptree(t, lambda u: upd_field(u, name, variant, val))
    if t.op == "adt" and (variant is None or t.args[1] == variant):
        return mk("adt", t.args[0], t.args[1],
                  tuple((n, val if n == name else v) for n, v in t.args[2]))
    if t.op == "tup":
        a = list(t.args)
        a[int(name)] = val
        return mk("tup", *a)
    if t.op == "clo":
        a = list(t.args[1])
        a[int(name)] = val
        return mk("clo", t.args[0], tuple(a))
    if t.op == "upd":
        d = dict(t.args[1])
        base = t.args[0]
    else:
        d, base = {}, t
    d[(variant, name)] = val
    if field(base, name, variant) is val:
        d.pop((variant, name), None)
    if not d:
        return base
    return mk("upd", base, tuple(sorted(d.items(), key=lambda p: (str(p[0][0]), p[0][1]))))


# ---------------------------------------------------------------- sequences
def index(v, i):
    def f(x, j):
        if x.op == "arr" and j.op == "int" and 0 <= j.args[0] < len(x.args):
            return x.args[j.args[0]]
        if x.op == "updi":
            b, k, val = x.args
            if k is j:
                return val
            d = sub(k, j)
            if d.op == "int" and d.args[0] != 0:
                return index(b, j)
        if x.op == "slice":
            return index(x.args[0], add(x.args[1], j))
        if x.op == "coll":
            # [f(e) for e in xs][k] is f(xs[k])
            r = coll_at(x, j)
            if r is not None:
                return r
        if x.op == "rep":
            return x.args[0]
        if x.op == "vecapp" and x.args[0].op == "arr" and j.op == "int" and j.args[0] < len(x.args[0].args):
            return x.args[0].args[j.args[0]]
        return mk("idx", x, j)

    return hoisted(f, [v, i])


def coll_at(x, j):
    L, tree = x.args[0], x.args[1]
    if tree.op == "seq" and len(tree.args) == 1 and tree.args[0].op == "it":
        lp = L
        if lp.op == "L" and lp.args[0].op in ("over", "range"):
            return subst_k(tree.args[0].args[0], L, j)
    return None


BINDERS = {"coll", "sum", "exists", "exitby", "fin", "mu", "mapd"}


def subst_k(t, L, j):
    """replace the iteration number of loop L, leaving terms that bind it alone"""
    k = mk("k", L)
    if j is k:
        return t
    memo = {k: j}
    for u in subterms(t):
        if u.op in BINDERS and (u.args[0] is L or (u.op == "mapd" and u.args[1] is L)):
            memo[u] = u
        elif u.op == "fin" and u.args[0].args[0] is L:
            memo[u] = u
        elif u.op == "psum" and u.args[0] is L:
            memo[u] = psum(L, u.args[1], subst_k(u.args[2], L, j))
    return _subst(t, memo)


def psum(L, t, i):
    """sum of t over the iterations of L before i"""
    if i is loop_len(L):
        return mk("sum", L, t)
    if i.op == "int" and i.args[0] == 0:
        return INT(0)
    return mk("psum", L, t, i)


def length(v):
    def f(x):
        if x.op == "str":
            return INT(len(x.args[0].encode()))
        if x.op == "arr":
            return INT(len(x.args))
        if x.op == "bytes":
            return INT(len(x.args))
        if x.op == "updi":
            return length(x.args[0])
        if x.op == "slice":
            return sub(x.args[2], x.args[1])
        if x.op == "rep":
            return x.args[1]
        if x.op == "call" and x.args[0] in ("sorted", "sorted_by", "sorted_desc", "reversed"):
            return length(x.args[1])
        if x.op == "call" and x.args[0].endswith(("::to_le_bytes", "::to_be_bytes", "::to_ne_bytes")):
            n = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}.get(x.args[0].split("::")[0])
            if n:
                return INT(n)
        if x.op == "mapd":
            return length(x.args[0])
        if x.op == "coll":
            L, tree = x.args[0], x.args[1]
            if tree.op == "seq" and len(tree.args) == 1 and tree.args[0].op == "it":
                n = loop_len(L)
                if n is not None:
                    return n
        if x.op == "app":
            if x.args[1].args[0] in ("push",):
                return add(length(x.args[0]), INT(1))
            if x.args[1].args[0] == "push_str":
                return add(length(x.args[0]), length(x.args[1].args[1]))
        return mk("len", x)

    return hoisted(f, [v])


def loop_len(L):
    if L.op == "L":
        src = L.args[0]
        if src.op == "over":
            return length(src.args[0])
        if src.op == "range":
            return sub(src.args[1], src.args[0])
    return None


def slice_(v, a, b):
    def f(x, i, j):
        if i.op == "int" and i.args[0] == 0 and j is length(x):
            return x
        if x.op == "slice":
            o = x.args[1]
            return slice_(x.args[0], add(o, i), add(o, j))
        if x.op == "arr" and i.op == "int" and j.op == "int":
            return mk("arr", *x.args[i.args[0]:j.args[0]])
        return mk("slice", x, i, j)

    return hoisted(f, [v, a, b])


def app(base, item):
    if base.op == "arr" and item.args[0] == "push":
        return mk("arr", *(base.args + (item.args[1],)))
    if base.op == "str" and item.args[0] == "push_str" and item.args[1].op == "str":
        return STR(base.args[0] + item.args[1].args[0])
    if base.op == "str" and item.args[0] == "push_str" and base.args[0] == "":
        return item.args[1]
    if item.args[0] == "push_str" and item.args[1].op == "str" and item.args[1].args[0] == "":
        return base
    return mk("app", base, item)


def pure(name, *args):
    return hoisted(lambda *a: mk("call", name, *a), list(args))


# ---------------------------------------------------------------- traversal
def children(t):
    for a in t.args:
        if isT(a):
            yield a
        elif isinstance(a, tuple):
            yield from _tch(a)


def _tch(a):
    for x in a:
        if isT(x):
            yield x
        elif isinstance(x, tuple):
            yield from _tch(x)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        st.extend(children(u))
    return seen


def contains(t, u):
    return u in subterms(t)


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def subst(t, m, memo=None):
    if memo is None:
        memo = dict(m)
    return _subst(t, memo)


def _subst(t, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args:
        return t

    def go(a):
        if isT(a):
            return _subst(a, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a

    new = tuple(go(a) for a in t.args)
    if all(x is y for x, y in zip(new, t.args)) or new == t.args:
        r = t
    else:
        r = rebuild(t.op, new)
    memo[t] = r
    return r


REBUILD.update({
    "cond": lambda a, h, l: ite(as_bool(a), h, l),
    "lin": lambda c, ts: _relin(c, ts),
    "prod": lambda a, b: mul(a, b),
    "pos": pos,
    "zero": zero,
    "eq": eq,
    "is": isv,
    "f": lambda t, v, n: field(t, n, v),
    "idx": index,
    "len": length,
    "slice": slice_,
    "psum": psum,
    "app": app,
    "upd": lambda b, items: _reupd(b, items),
    "updi": lambda b, i, v: updi(b, i, v),
})


def _relin(c, ts):
    r = INT(c)
    for t, k in ts:
        r = add(r, mulc(t, k))
    return r


def _reupd(b, items):
    for (v, n), val in items:
        b = upd_field(b, n, v, val)
    return b


def updi(b, i, v):
    if b.op == "arr" and i.op == "int" and i.args[0] < len(b.args):
        a = list(b.args)
        a[i.args[0]] = v
        return mk("arr", *a)
    if b.op == "updi" and b.args[1] is i:
        return updi(b.args[0], i, v)
    if index(b, i) is v:
        return b
    return mk("updi", b, i, v)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if not isT(t):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "int" or op == "bool":
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "par":
        return a[0]
    if op == "cond":
        if a[1] is TRUE and a[2] is FALSE:
            return "[%s]" % show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return "[!%s]" % show(a[0], d)
        return "if(%s ? %s : %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == "lin":
        s = []
        for x, k in a[1]:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(x, d))
        if a[0]:
            s.append(str(a[0]))
        return "(" + " + ".join(s) + ")"
    if op == "pos":
        return show(a[0], d) + ">0"
    if op == "zero":
        return show(a[0], d) + "==0"
    if op == "eq":
        return show(a[0], d) + "==" + show(a[1], d)
    if op == "is":
        return "%s is %s" % (show(a[0], d), a[2])
    if op == "f":
        return "%s.%s" % (show(a[0], d), a[2] if a[1] is None else "%s@%s" % (a[1], a[2]))
    if op == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "adt":
        n = a[0].split("::")[-1] + ("::" + a[1] if a[1] else "")
        if not a[2]:
            return n
        return n + "{" + ", ".join("%s: %s" % (k, show(v, d)) for k, v in a[2]) + "}"
    if op == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if op == "k":
        return "k" + str(a[0].id)
    if op == "L":
        return "L%d<%s>" % (t.id, show(a[0], d))
    if op == "unit":
        return "()"
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))


def pp(t, maxlen=160):
    """printed with shared and large subterms named"""
    names, out = {}, []
    size = {}

    def sz(u):
        if u not in size:
            size[u] = 1
            size[u] = 1 + sum(sz(c) for c in children(u))
        return size[u]

    cnt = {}
    for u in subterms(t):
        for c in children(u):
            cnt[c] = cnt.get(c, 0) + 1

    def go(u, top=False):
        if not top:
            if u in names:
                return names[u]
            if sz(u) > 6 and (cnt.get(u, 0) > 1 or u.op in ("coll", "L")):
                s = go(u, True)
                n = "$%d" % (len(out) + 1)
                if u.op == "L":
                    n = "$L%d" % (len(out) + 1)
                names[u] = n
                out.append("%s = %s" % (n, s))
                return n
        return body(u)

    def body(u):
        op, a = u.op, u.args
        g = lambda x: go(x) if isT(x) else ("(" + ",".join(g(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
        if op in ("int", "bool"): return str(a[0])
        if op == "str": return repr(a[0])
        if op == "par": return a[0]
        if op == "cond":
            if a[1] is TRUE and a[2] is FALSE: return "[%s]" % g(a[0])
            if a[1] is FALSE and a[2] is TRUE: return "[!%s]" % g(a[0])
            return "{%s ? %s : %s}" % (g(a[0]), g(a[1]), g(a[2]))
        if op == "lin":
            s = [("" if k == 1 else "-" if k == -1 else "%d*" % k) + g(x) for x, k in a[1]]
            if a[0]: s.append(str(a[0]))
            return "(" + " + ".join(s) + ")"
        if op == "pos": return g(a[0]) + ">0"
        if op == "zero": return g(a[0]) + "==0"
        if op == "eq": return g(a[0]) + "==" + g(a[1])
        if op == "is": return "%s is %s" % (g(a[0]), a[2])
        if op == "f": return "%s.%s" % (g(a[0]), a[2] if a[1] is None else "%s@%s" % (a[1], a[2]))
        if op == "idx": return "%s[%s]" % (g(a[0]), g(a[1]))
        if op == "adt":
            n = a[0].split("::")[-1] + ("::" + a[1] if a[1] else "")
            return n if not a[2] else n + "{" + ", ".join("%s: %s" % (k, g(v)) for k, v in a[2]) + "}"
        if op == "call": return "%s(%s)" % (a[0], ", ".join(g(x) for x in a[1:]))
        if op == "k": return "k:" + go(a[0])
        if op == "L": return "L#%d<%s>" % (u.id, g(a[0]))
        if op == "mu": return "mu_%s_%s" % (a[1], a[2])
        if op == "unit": return "()"
        return "%s(%s)" % (op, ", ".join(g(x) for x in a))

    r = go(t, True)
    return "\n".join(["    " + o for o in out] + ["    " + r])
