"""What the rules of every property share: analysed functions, the byte streams a
function writes, comparison of a derived value with the value a rule expects, and
the bookkeeping of obligations."""
import json
import os
import time
import traceback

from . import assume as asm
from . import dump
from . import terms as tm
from .engine import World, Engine, Abort, ty_s, strip_refs
from .terms import *

VERIF = dump.VERIF


class Missing(Exception):
    """something a rule needs to find in the program is not there"""


class Undecided(Exception):
    pass


class Violated(Exception):
    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.where = where


_worlds = {}


def world(cfg="default"):
    if cfg not in _worlds:
        d = dump.ensure([cfg])
        _worlds[cfg] = World(d[cfg])
    return _worlds[cfg]


class Result:
    """one analysed function"""

    def __init__(self, key, eng, ret, writers, watched):
        self.key, self.eng, self.ret, self.writers, self.watched = key, eng, ret, writers, watched
        self.panics = eng.panics
        self.loops = eng.loop_list
        self.opaque = eng.opaque_calls
        self.visited = set(eng.visited)
        self.final_state = eng.final_state

    def final(self, name):
        return self.final_state.get(("P", name))


_runs = {}
MODES = {None: None, "io": asm.io_ok, "all": asm.all_ok}


def chain(t):
    """app(app(base, i1), i2) -> base, [i1, i2]"""
    its = []
    while t.op == "app":
        its.append(t.args[1])
        t = t.args[0]
    return t, its[::-1]


SINKS = ("BufWriter::new", "BufWriter::with_capacity", "File::create", "LineWriter::new", "OpenOptions::open")


def file_of(base):
    """the path term of the file a writer writes to (or None)"""
    t = base
    while True:
        if t.op == "f" and t.args[1] == "Ok":
            t = t.args[0]
        elif t.op == "call" and t.args[0] in ("BufWriter::new", "LineWriter::new"):
            t = t.args[1]
        elif t.op == "call" and t.args[0] == "BufWriter::with_capacity":
            t = t.args[2]
        elif t.op == "call" and t.args[0] in ("File::create", "File::options", "OpenOptions::open"):
            return t.args[-1]
        elif t.op == "call" and t.args[0] == "map_err":
            t = t.args[1]
        else:
            return None


def buffered(base):
    return any(u.op == "call" and u.args[0] in ("BufWriter::new", "BufWriter::with_capacity", "LineWriter::new")
               for u in subterms(base))


def analyse(key, mode=None, cfg="default", opaque=(), budget=120.0, watch=None):
    k = (key, mode, cfg, tuple(opaque), watch)
    r = _runs.get(k)
    if r is None:
        w = world(cfg)
        writers = []
        seen = []

        def watcher(e, fr, st, ret, g):
            for c, v in st.items():
                if c[0] == "L" and c[1] == fr.id and v.op in ("app", "cond", "call", "f"):
                    for leaf in leaves(v)[:64]:
                        b, _ = chain(leaf)
                        if b.op in ("call", "f") and file_of(b) is not None:
                            writers.append((fr.fn.key, fr.fn.locals[c[2]].get("name") if isinstance(c[2], int) else None, v, ret, g))
                            break
            if watch is not None:
                watch(e, fr, st, ret, g, seen)
        eng = Engine(w, watch=watcher, opaque=opaque, budget=budget)
        try:
            ret = eng.run(key, assume=MODES[mode] if not callable(mode) else mode)
            r = Result(key, eng, ret, writers, seen)
        except Abort as ex:
            r = ex
        except RecursionError as ex:
            r = ex
        _runs[k] = r
    if isinstance(r, Exception):
        raise Undecided("analysis of %s gave up: %s" % (key, r))
    return r


# ---------------------------------------------------------------- byte streams
class Item:
    """one element of the byte stream written to a file: kind is u8/u16/i16/u32/...,
    'bytes', 'serialize', 'each' or 'flush'"""

    def __init__(self, kind, val=None, endian=None, loop=None, body=None, alt=None):
        self.kind, self.val, self.endian, self.loop, self.body, self.alt = kind, val, endian, loop, body, alt

    def __repr__(self):
        if self.kind == "each":
            return "each<%s>%r" % (show(self.loop, 3), self.body)
        return "%s%s(%s)" % (self.kind, self.endian or "", show(self.val, 6) if self.val is not None else "")


def stream_items(its):
    out = []
    for it in its:
        out += one_item(it)
    return out


def tree_items(t):
    if t.op == "seq":
        out = []
        for e in t.args:
            if e.op == "it":
                out += one_item(e.args[0])
            elif e.op == "spl":
                out.append(Item("bytes", e.args[0]))
            else:
                raise Undecided("stream element %s" % show(e, 4))
        return out
    raise Undecided("stream element written conditionally: %s" % show(t, 6))


def one_item(it):
    n = it.args[0]
    xs = it.args[1:]
    if n == "flush":
        return [Item("flush")]
    if n == "each":
        c = xs[0]
        if c.op == "coll":
            return [Item("each", loop=c.args[0], body=tree_items(c.args[1]))]
        raise Undecided("loop over %s" % show(c, 4))
    if n.startswith("write_") and n not in ("write_all", "write_fmt"):
        return [Item(n[6:], xs[0], "LE" if "Little" in str(xs[1].args[0]) else "BE" if "Big" in str(xs[1].args[0]) else "?")]
    if n in ("write_all", "write"):
        return bytes_items(xs[0]) if n == "write_all" else [Item("partial", xs[0])]
    if n == "serialize_into":
        return [Item("serialize", xs[0])]
    if n in ("extend", "push_str"):
        return bytes_items(xs[0])
    if n == "push":
        return [Item("u8", xs[0])]
    return [Item(n, xs[0] if xs else None)]


def bytes_items(v):
    b, its = chain(v)
    if its and b.op == "arr" and not b.args:
        return stream_items(its)
    if v.op == "call" and v.args[0].endswith("::to_le_bytes"):
        return [Item(v.args[0].split("::")[0], v.args[1], "LE")]
    if v.op == "call" and v.args[0].endswith("::to_be_bytes"):
        return [Item(v.args[0].split("::")[0], v.args[1], "BE")]
    if v.op == "coll":
        return [Item("each", loop=v.args[0], body=coll_bytes(v.args[1]))]
    if v.op == "f" and v.args[1] == "Ok" and v.args[0].op == "call" and v.args[0].args[0] == "bincode::serialize":
        return [Item("serialize", v.args[0].args[1])]
    return [Item("bytes", v)]


def coll_bytes(t):
    if t.op != "seq":
        raise Undecided("bytes collected conditionally")
    out = []
    for e in t.args:
        if e.op == "spl":
            out += bytes_items(e.args[0])
        else:
            out.append(Item("u8", e.args[0]))
    return out


class OutFile:
    def __init__(self, path, base, raw, fn):
        self.path, self.base, self.raw, self.fn = path, base, raw, fn
        self.name = path_name(path)
        self.buffered = buffered(base)
        _, self.its = chain(raw)

    @property
    def items(self):
        return [i for i in stream_items(self.its) if i.kind != "flush"]

    @property
    def flushed(self):
        """the last thing done to the writer is a flush"""
        return bool(self.its) and self.its[-1].args[0] in ("flush", "into_inner", "sync_all")

    @property
    def written(self):
        return bool(self.its)


def path_name(p):
    """the literal file name at the end of a path term, or None"""
    if p.op == "str":
        return p.args[0].split("/")[-1]
    if p.op == "call" and p.args[0] in ("Path::join", "PathBuf::push") and len(p.args) == 3:
        return path_name(p.args[2])
    if p.op == "app" and p.args[1].args[0] in ("push", "push_str"):
        return path_name(p.args[1].args[1])
    if p.op == "call" and p.args[0] in ("PathBuf::from", "Path::new", "Path::to_path_buf"):
        return path_name(p.args[1])
    return None


def path_dir(p):
    if p.op == "call" and p.args[0] in ("Path::join",) and len(p.args) == 3:
        return p.args[1]
    return None


def is_prefix(a, b):
    _, x = chain(a)
    _, y = chain(b)
    return x == y[:len(x)]


def facts(c):
    """atoms whose value the conjunction c fixes"""
    out = {}
    if c.op != "cond" and c is not TRUE and c is not FALSE:
        return {c: TRUE}
    while c.op == "cond":
        a, hi, lo = c.args
        if lo is FALSE:
            out[a] = TRUE
            c = hi
        elif hi is FALSE:
            out[a] = FALSE
            c = lo
        else:
            break
    return out


def out_files(res, cond_=TRUE, fixed=None):
    """final contents of every file written, on success paths; `fixed` replaces atoms"""
    rr = subst(res.ret, fixed) if fixed else res.ret
    ok = AND(isv(rr, RESULT, "Ok"), cond_) if has_result(rr) else cond_
    known = facts(ok) if ok.op == "cond" else {}
    got = []
    for fn, name, v, ret, g in res.writers:
        if fixed:
            v = subst(v, fixed)
        v = restrict(v, ok)
        if ok.op == "cond":
            v = cofactor(v, ok)
            v = subst(v, known)
        vs = [l for l in leaves(v)]
        for leaf in vs:
            b, _ = chain(leaf)
            p = file_of(b)
            if p is None:
                continue
            got.append(OutFile(p, b, leaf, fn))
    keep = []
    for f in got:
        if any(g is not f and g.path is f.path and g.raw is not f.raw and is_prefix(f.raw, g.raw) for g in got):
            continue
        if any(g.path is f.path and g.raw is f.raw for g in keep):
            continue
        keep.append(f)
    return keep


def cofactor(v, c):
    """v under the facts that c implies as a plain conjunction"""
    while c.op == "cond":
        a, hi, lo = c.args
        if lo is FALSE:
            v = assume(v, a, True)
            c = hi
        elif hi is FALSE:
            v = assume(v, a, False)
            c = lo
        else:
            break
    return v


def has_result(t):
    return any(l.op == "adt" and l.args[0] == RESULT for l in leaves(t)) or t.op == "call"


# ---------------------------------------------------------------- comparison
def norm(t, memo=None):
    """loop identities reduced to what they iterate over"""
    if memo is None:
        memo = {}
    return _norm(t, memo)


def _norm(t, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "L":
        s = _norm(t.args[0], memo)
        if s.op == "range" and s.args[0] is INT(0) and s.args[1].op == "len":
            s = mk("over", s.args[1].args[0])
        r = mk("L", s, 0)
    else:
        def go(a):
            if isT(a):
                return _norm(a, memo)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a
        args = tuple(go(a) for a in t.args)
        r = rebuild(t.op, args) if args != t.args else t
        if r.op == "call" and r.args[0] == "map_at":
            # m[k] is the value m.get(k) finds
            r = field(mk("call", "map_get", *r.args[1:]), "0", "Some")
    memo[t] = r
    return r


# ---------------------------------------------------------------- arithmetic of loop indices
def index_facts(t):
    """terms known to be >= 0: for an index k over n elements, n - 1 - k"""
    out = []
    for u in subterms(t):
        if u.op == "k" and u.args[0].op == "L":
            s = u.args[0].args[0]
            if s.op == "over":
                n = length(s.args[0])
            elif s.op == "range":
                n = sub(s.args[1], s.args[0])
            else:
                continue
            f = sub(sub(n, INT(1)), u)
            if f.op != "cond":
                out.append(f)
    return out


def lower(x, fs, depth=2):
    """a lower bound of the integer term x, or None"""
    c, ts = lin_parts(x)
    if all(k > 0 and nonneg(t) for t, k in ts):
        return c
    best = None
    if depth:
        have = {t: k for t, k in ts}
        for f in fs:
            # only facts that remove a negative term
            if any(k < 0 and have.get(t, 0) < 0 for t, k in lin_parts(f)[1]):
                b = lower(sub(x, f), fs, depth - 1)
                if b is not None and (best is None or b > best):
                    best = b
    return best


def arith(t):
    """conditions on linear terms simplified by what is known of loop indices"""
    memo = {}

    def atom(a, fs):
        if a.op not in ("pos", "zero"):
            return a
        x = a.args[0]
        lo = lower(x, fs)
        up = lower(mulc(x, -1), fs)
        hi = None if up is None else -up
        if lo is not None and lo >= 1:
            return bconst(a.op == "pos")
        if hi is not None and hi <= -1:
            return FALSE
        if a.op == "zero":
            return a
        if hi is not None and hi <= 0:
            return FALSE
        if lo == 0:
            return NOT(zero(x))
        if hi == 1:
            return zero(sub(x, INT(1)))
        return a

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        args = tuple(go(x) if isT(x) else tuple(go(y) if isT(y) else
                     tuple(go(z) if isT(z) else z for z in y) if isinstance(y, tuple) else y for y in x)
                     if isinstance(x, tuple) else x for x in u.args)
        if u.op == "cond":
            a = args[0]
            fs = index_facts(a)
            a2 = as_bool(atom(a, fs)) if a.op in ("pos", "zero") else a
            hi, lo = args[1], args[2]
            # where x == 0, both branches may be the same
            if a2.op == "cond" and a2.args[0].op == "zero" and isT(hi) and {a2.args[1], a2.args[2]} == {TRUE, FALSE}:
                z = a2.args[0].args[0]
                e, o = (hi, lo) if a2.args[1] is TRUE else (lo, hi)
                c, ts = lin_parts(z)
                for x, k in ts:
                    if k in (1, -1):
                        rest = mulc(sub(z, mulc(x, k)), -k)
                        if subst(o, {x: rest}) is e:
                            memo[u] = o
                            return o
            r = ite(a2, hi, lo)
        elif args != u.args:
            r = rebuild(u.op, args)
        else:
            r = u
        memo[u] = r
        return r

    return go(t)


UNRES = {"mu", "fin", "mut", "undef", "dead"}


def unresolved(t):
    for u in subterms(t):
        if u.op in UNRES:
            return u
    return None


# library functions whose meaning rules rely on; a value that uses another one cannot
# be said to differ from the expected value just because it is written differently
KNOWN = set("""len cast try_u32 parse str::trim str::trim_start str::trim_end str::split str::lines str::replace
slice::join slice::concat map_iter group sorted str::chars str::bytes str::to_lowercase str::to_uppercase
str::starts_with str::ends_with str::contains contains u32::from_le_bytes map_get char::len_utf8
Path::join File::open File::create io_read:read_to_end io_read:read_to_string bincode::deserialize
serde_json::from_str serde_json::from_slice Encoding::decode glob::glob min max psum sum count filter
""".split())


def vocab(t):
    return {u.args[0] for u in subterms(t) if u.op == "call"}


def differences(a, e, out=None, depth=0):
    """pairs of subterms in which a differs from e"""
    if out is None:
        out = []
    if a is e:
        return out
    if not (isT(a) and isT(e)) or a.op != e.op or depth > 60:
        out.append((a, e))
        return out
    if a.op == "lin":
        if a.args[0] != e.args[0]:
            out.append((a, e))
            return out
        da, de = dict(a.args[1]), dict(e.args[1])
        ra = [(x, k) for x, k in a.args[1] if de.get(x) != k]
        re_ = [(x, k) for x, k in e.args[1] if da.get(x) != k]
        if len(ra) == 1 and len(re_) == 1 and ra[0][1] == re_[0][1]:
            return differences(ra[0][0], re_[0][0], out, depth + 1)
        out.append((a, e))
        return out
    if len(a.args) != len(e.args):
        out.append((a, e))
        return out
    sub_ = []
    for x, y in zip(a.args, e.args):
        if isT(x) and isT(y):
            if x is not y:
                sub_.append((x, y))
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            fx, fy = flat(x), flat(y)
            if len(fx) != len(fy):
                out.append((a, e))
                return out
            for p, q in zip(fx, fy):
                if isT(p) and isT(q):
                    if p is not q:
                        sub_.append((p, q))
                elif p != q:
                    out.append((a, e))
                    return out
        elif x != y:
            out.append((a, e))
            return out
    if a.op == "call" and a.args[0] != e.args[0]:
        out.append((a, e))
        return out
    for x, y in sub_:
        differences(x, y, out, depth + 1)
        if len(out) > 8:
            break
    return out


def flat(x):
    r = []
    for y in x:
        if isinstance(y, tuple):
            r += flat(y)
        else:
            r.append(y)
    return r


BOOLS = ("is", "pos", "zero", "eq", "exists", "exitby", "bool")


class Agreement:
    """whether two values are equal on every path that can be taken (same literals on both sides)"""

    def __init__(self, budget=15.0):
        self.end = time.time() + budget
        self.n = 0

    def feasible(self, lits, extra=TRUE):
        from .bounds import possible, members, ranges, GiveUp
        self.n += 1
        if self.n > 400 or time.time() > self.end:
            raise GiveUp()
        g = extra
        for a, v in lits:
            g = AND(g, a if v else NOT(a))
        if g is FALSE:
            return False
        ks = {u for u in subterms(g) if u.op == "k"}
        for k in ks:
            for r in ranges(k.args[0], k):
                g = AND(g, r)
        g, where = members(as_bool(g))
        g = AND(g, where)
        return g is not FALSE and possible(g, budget=max(0.1, min(5.0, self.end - time.time()))) is not None

    def values(self, a, e, lits):
        """a and e are different terms: equal wherever lits hold?"""
        if lits and not self.feasible(lits):
            return True
        for x, y in ((a, e), (e, a)):
            if x.op == "prod" and y is INT(0) and lits:
                return any(self.values(uncast(f), y, lits) for f in x.args)
        if a.op in ("lin", "int", "prod") or e.op in ("lin", "int", "prod"):
            d = sub(uncast(a), uncast(e))
            if self.cancels(d, lits):
                return True
            return lits and not self.feasible(lits, pos(d)) and not self.feasible(lits, pos(neg_(d)))
        return False

    def cancels(self, d, lits):
        """d is 0 by an equality that two of the inequalities amount to"""
        for x, v in lits:
            for y, u in lits:
                if not (v and not u and x.op == y.op == "pos" and sub(x.args[0], y.args[0]) is INT(1)):
                    continue
                c0, ts = y.args[0].args if y.args[0].op == "lin" else (0, ((y.args[0], 1),))
                for m, k in ts:
                    if k not in (1, -1):
                        continue
                    rest = sub(y.args[0], m) if k == 1 else add(y.args[0], m)
                    z = arith(subst(d, {m: sub(INT(0), rest) if k == 1 else rest}))
                    if z is INT(0):
                        return True
        return False

    def agree(self, a, e, lits=()):
        if a is e:
            return True
        if not (isT(a) and isT(e)):
            return a == e
        if a.op == "cond" or e.op == "cond":
            at = a.args[0] if a.op == "cond" else e.args[0]
            for v in (True, False):
                x = assume(a, at, v) if a.op == "cond" else a
                y = assume(e, at, v) if e.op == "cond" else e
                if x is not y and not self.agree(x, y, lits + ((at, v),)):
                    return False
            return True
        if a.op == e.op and a.op != "lin" and len(a.args) == len(e.args):
            xs, ys = flat(a.args), flat(e.args)
            if len(xs) == len(ys) and all(isT(x) == isT(y) and (isT(x) or x == y) for x, y in zip(xs, ys)):
                if all(self.agree(x, y, lits) for x, y in zip(xs, ys) if x is not y):
                    return True
        return bool(self.values(a, e, lits))


def uncast(t):
    while t.op == "cast":
        t = t.args[2]
    return t


def neg_(t):
    return sub(INT(0), t)


def agree(a, e):
    from .bounds import GiveUp
    try:
        return Agreement().agree(a, e)
    except (GiveUp, RecursionError):
        return False


def same(actual, expected, what, where=None, extra_vocab=()):
    """held if equal; Violated if it differs in known vocabulary; else Undecided"""
    if actual.op in BOOLS:
        actual = as_bool(actual)
    if expected.op in BOOLS:
        expected = as_bool(expected)
    a, e = norm(actual), norm(expected)
    if a is e:
        return True
    a, e = arith(a), arith(e)
    if a is e:
        return True
    if agree(a, e):
        return True
    ds = differences(a, e)
    voc = vocab(e) | KNOWN | set(extra_vocab)
    texts = []
    for x, y in ds:
        texts.append("found %s, expected %s" % (show(x, 8)[:400], show(y, 8)[:400]))
        u = unresolved(x) if isT(x) else None
        if u is not None:
            raise Undecided("%s: part of the value could not be put in closed form (%s)" % (what, show(u, 2)))
        if isT(x):
            unk = [n for n in vocab(x) if n not in voc and not n.startswith("parse<")]
            if unk:
                raise Undecided("%s: computed with %s, whose relation to the expected form is not known; %s" %
                                (what, ", ".join(sorted(unk)), texts[-1]))
    raise Violated("%s: %s" % (what, "; ".join(texts[:4])), where)


# ---------------------------------------------------------------- obligations
class OutOfResources(BaseException):
    """raised from outside in an obligation that takes too long"""


CURRENT, STOP = [None], [None]


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []
        self.functions = set()
        self.notes = []
        self.counts = {}

    def w(self, cfg="default"):
        return world(cfg)

    def fn(self, name, crate=None, trait=None, cfg="default", many=False):
        r = [k for k in world(cfg).find(name, crate=crate, trait=trait) if "promoted" not in k]
        if not r:
            raise Missing("no function %s%s" % (name, " in " + crate if crate else ""))
        if many:
            return r
        if len(r) > 1:
            raise Missing("function %s is ambiguous: %s" % (name, r))
        return r[0]

    def analyse(self, name, mode=None, cfg="default", opaque=(), crate=None, trait=None, watch=None, budget=120.0):
        k = self.fn(name, crate, trait, cfg)
        r = analyse(k, mode, cfg, opaque, watch=watch, budget=budget)
        self.functions |= r.visited | {k}
        return r

    def ob(self, name, f, *args, where=None):
        """run one obligation"""
        t = time.time()
        if STOP[0]:
            self.obl.append(dict(obligation=name, status="undecided", detail=STOP[0], where=where))
            return False
        try:
            CURRENT[0] = t
            try:
                d = f(*args)
            finally:
                CURRENT[0] = None
            self.obl.append(dict(obligation=name, status="held", detail=d if isinstance(d, str) else None))
        except Violated as ex:
            self.obl.append(dict(obligation=name, status="violated", detail=str(ex), where=ex.where or where))
        except Missing as ex:
            self.obl.append(dict(obligation=name, status="violated", detail="anchor missing: %s" % ex, where=where))
        except Undecided as ex:
            self.obl.append(dict(obligation=name, status="undecided", detail=str(ex), where=where))
        except RecursionError:
            self.obl.append(dict(obligation=name, status="undecided", detail="recursion limit", where=where))
        except OutOfResources:
            self.obl.append(dict(obligation=name, status="undecided", detail="takes too much time or memory", where=where))
        except Exception as ex:
            self.obl.append(dict(obligation=name, status="undecided", where=where,
                                 detail="internal: %s\n%s" % (ex, traceback.format_exc()[-1500:])))
        self.obl[-1]["s"] = round(time.time() - t, 2)
        return self.obl[-1]["status"] == "held"

    def floor(self, what, got, least):
        self.counts[what] = got
        if got < least:
            self.obl.append(dict(obligation="count of " + what, status="violated",
                                 detail="only %d found, at least %d were confirmed by hand" % (got, least)))


def require(c, msg, where=None):
    if not c:
        raise Violated(msg, where)


def decided(c, msg):
    if not c:
        raise Undecided(msg)
