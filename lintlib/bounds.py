"""Can a guard hold?  Follows the paths of a decision diagram with a linear inequality domain.

`possible(guard)` returns the literals of a path that could not be excluded, or None if every path
contradicts itself.  Quantified conditions are instantiated: `exists` with a fresh index within its
range, a negated `exists` at every index that occurs for the same sequence.  Facts about library
values (lengths are not negative, splitting yields at least one part, ...) are in `facts`."""
import math
import time
from .terms import *
from . import terms as tm

UNSIGNED = ("u8", "u16", "u32", "u64", "usize", "u128")
TOP = {"u8": (1 << 8) - 1, "i8": (1 << 7) - 1, "u16": (1 << 16) - 1, "i16": (1 << 15) - 1, "u32": (1 << 32) - 1,
       "i32": (1 << 31) - 1}


class GiveUp(Exception):
    pass


# ------------------------------------------------------------------- linear inequalities
def lin(t):
    c, ts = lin_parts(t)
    return {u: k for u, k in ts}, c


def plus(a, b, f=1):
    d = dict(a[0])
    for u, k in b[0].items():
        d[u] = d.get(u, 0) + f * k
        if d[u] == 0:
            del d[u]
    return d, a[1] + f * b[1]


def tidy(c):
    d, k = c
    if not d:
        return c
    g = 0
    for v in d.values():
        g = math.gcd(g, v)
    if g > 1:
        return {u: v // g for u, v in d.items()}, k // g
    return c


def infeasible(cons, cap=260):
    """no integers satisfy all c >= 0 (incomplete)"""
    cur = {}

    def put(c):
        d, k = tidy(c)
        if not d:
            return k < 0
        key = tuple(sorted(((u.id, v) for u, v in d.items())))
        if key not in cur or k < cur[key][1]:
            cur[key] = (d, k)
        return False
    for c in cons:
        if put(c):
            return True
    while cur:
        cnt = {}
        for d, k in cur.values():
            for u, v in d.items():
                p = cnt.setdefault(u, [0, 0])
                p[v < 0] += 1
        u = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        P = [c for c in cur.values() if c[0].get(u, 0) > 0]
        N = [c for c in cur.values() if c[0].get(u, 0) < 0]
        rest = [c for c in cur.values() if u not in c[0]]
        if len(rest) + len(P) * len(N) > cap:
            return False
        cur = {}
        for c in rest:
            if put(c):
                return True
        for p in P:
            for n in N:
                a, b = p[0][u], -n[0][u]
                c = plus(({x: v * b for x, v in p[0].items()}, p[1] * b), n, a)
                if put(c):
                    return True
    return False


def entails(cons, t):
    """t >= 0 follows"""
    d, k = lin(t)
    return infeasible(cons + [({u: -v for u, v in d.items()}, -k - 1)])


# ------------------------------------------------------------------- facts
def prefix_match(t):
    """the text searched, if t is the length of a match of a prefix search"""
    if t.op != "f" or t.args[2] != "1":
        return None
    x = t.args[0]
    if x.op != "idx":
        return None
    x = x.args[0]
    if x.op == "coll" and x.args[0].op == "L" and x.args[0].args[0].op == "over":
        L = x.args[0]
        e = index(L.args[0].args[0], mk("k", L))
        for l in leaves(x.args[1]):
            if l.op != "seq" or len(l.args) > 1 or l.args and l.args[0].args[0] is not e:
                return None
        x = L.args[0].args[0]
    if x.op == "call" and x.args[0].endswith("common_prefix_search"):
        return x.args[2]
    return None


def free_ks(t):
    return {u for u in subterms(t) if u.op == "k"}


class Facts:
    def __init__(self, known=()):
        self.known = known      # functions term -> [terms that are >= 0]

    def of(self, m, cons):
        """constraints on the value m"""
        out = []
        ge = lambda t: out.append(lin(t))
        if nonneg(m):
            ge(m)
        if m.op == "len":
            x = m.args[0]
            if x.op == "call":
                n = x.args[0]
                if n in ("str::split", "str::split_terminator", "str::splitn", "str::rsplitn", "str::rsplit", "str::split_inclusive"):
                    if n in ("str::split", "str::rsplit"):
                        ge(sub(m, INT(1)))
                        if x.args[1].op == "str" and x.args[2].op in ("int", "str"):
                            sep = chr(x.args[2].args[0]) if x.args[2].op == "int" else x.args[2].args[0]
                            k = x.args[1].args[0].count(sep) + 1
                            ge(sub(m, INT(k)))
                            ge(sub(INT(k), m))
                if n in ("str::split_whitespace", "str::split_ascii_whitespace"):
                    y = x.args[1]
                    if y.op == "call" and y.args[0] in ("str::trim", "str::trim_start") and entails(cons, sub(length(y), INT(1))):
                        ge(sub(m, INT(1)))
                if n in ("str::trim", "str::trim_start", "str::trim_end"):
                    ge(sub(length(x.args[1]), m))
                y = x.args[1] if n == "map_iter" else x
                if y is not x:
                    ge(sub(length(y), m))
                    ge(sub(m, length(y)))
                if y.op == "call" and y.args[0] in ("group", "set") and len(y.args) == 2:
                    ge(sub(length(y.args[1]), m))
                    if entails(cons, sub(length(y.args[1]), INT(1))):
                        ge(sub(m, INT(1)))
            if x.op == "mut" and x.args[0] == "Vec::resize":
                n = x.args[2][1] if isinstance(x.args[2], tuple) else x.args[2].args[1]
                ge(sub(m, n))
                ge(sub(n, m))
        if m.op == "cast":
            to, frm, x = m.args
            if to in UNSIGNED:
                ge(m)
            if to in TOP:
                ge(sub(INT(TOP[to]), m))
            if (to not in UNSIGNED or entails(cons, x)) and (to not in TOP or frm in TOP and TOP[to] >= TOP[frm] or entails(cons, sub(INT(TOP[to]), x))):
                ge(sub(m, x))
                ge(sub(x, m))
        if m.op == "f" and m.args[0].op == "call" and m.args[1] == "Ok":
            n = m.args[0].args[0]
            if n.startswith(("parse<u", "try_u")):
                ge(m)
            if n.startswith("try_"):
                x = m.args[0].args[1]
                ge(sub(m, x))
                ge(sub(x, m))
        s = prefix_match(m)
        if s is not None:
            ge(m)
            ge(sub(length(s), m))
        f = m.args[0] if m.op == "f" else None
        if f is not None and m.args[2] == "0" and f.op == "call" and f.args[0] in ("str::find", "str::rfind") and len(f.args) == 3:
            # found before the end of the text
            q = f.args[2]
            ge(m)
            ge(sub(sub(length(f.args[1]), m), INT(len(chr(q.args[0]).encode())) if q.op == "int" else length(q) if q.op == "str" else INT(0)))
        if f is not None and m.args[2] == "0" and f.op == "idx" and f.args[0].op == "call" and f.args[0].args[0] == "str::char_indices":
            ge(m)
            ge(sub(sub(length(f.args[0].args[1]), m), INT(1)))
        if m.op == "call" and m.args[0] == "Match::start":
            ge(m)
            x = m.args[1].args[1] if m.args[1].op == "call" and m.args[1].args[0] == "Captures::whole" else m.args[1]
            if x.op == "idx" and x.args[0].op == "call" and x.args[0].args[0] in ("Regex::captures_iter", "Regex::find_iter"):
                ge(sub(sub(length(x.args[0].args[2]), m), length(mk("call", "Match::as_str", m.args[1]))))
        if m.op == "call" and m.args[0] == "char::len_utf8":
            ge(sub(m, INT(1)))
            ge(sub(INT(4), m))
            if m.args[1].op == "int":
                k = len(chr(m.args[1].args[0]).encode())
                ge(sub(m, INT(k)))
                ge(sub(INT(k), m))
        for f in self.known:
            for t in f(m) or ():
                ge(t)
        return out

    def literal(self, a, val):
        """constraints a literal gives"""
        x = a.args[0] if a.args else None
        if a.op == "pos":
            return [lin(sub(x, INT(1)))] if val else [lin(mulc(x, -1))]
        if a.op == "zero":
            if val:
                return [lin(x), lin(mulc(x, -1))]
            return [("nz", x)]
        if a.op == "call" and val and a.args[0] in ("str::ends_with", "str::starts_with") and len(a.args) == 3:
            p = a.args[2]
            if p.op == "int":
                return [lin(sub(length(a.args[1]), INT(len(chr(p.args[0]).encode()))))]
            return [lin(sub(length(a.args[1]), length(p)))]
        if a.op == "eq" and val and "str" in (a.args[0].op, a.args[1].op):
            d = sub(length(a.args[0]), length(a.args[1]))
            return [lin(d), lin(mulc(d, -1))]
        return []


def chosen(t, lits):
    """t with the choices made by the literals"""
    while t.op == "cond" and t.args[0] in lits:
        t = t.args[1] if lits[t.args[0]] else t.args[2]
    return t


def within(cons, i, n, fs, depth=6):
    """0 <= i < n follows; n may be a choice"""
    if not entails(cons, i):
        return False

    def go(cons, n, depth):
        if n.op == "cond" and depth:
            a, hi, lo = n.args
            for val, br in ((True, hi), (False, lo)):
                more = [c for c in fs.literal(a, val) if c[0] != "nz"]
                for u in monomials(more):
                    more = more + fs.of(u, cons)
                if infeasible(cons + more):
                    continue
                if not go(cons + more, br, depth - 1):
                    return False
            return True
        return n.op != "cond" and entails(cons + fs.of(n, cons), sub(sub(n, i), INT(1)))
    return go(cons, n, depth)


def monomials(cons):
    s = set()
    for d, _ in cons:
        s |= set(d)
    return s


def close(lits, fs):
    cons, nz = [], []
    for a, v in lits.items():
        for c in fs.literal(a, v):
            (nz.append(c[1]) if c[0] == "nz" else cons.append(c))
    done, late = set(), []
    for rnd in range(12):
        new = sorted((monomials(cons) | {u for x in nz for u in lin(x)[0]}) - done, key=lambda u: u.id)
        if not new and rnd > 1:
            break
        if not new:     # facts that depend on others, once more
            new, late = late, []
            if not new:
                break
        for m in new:
            if m not in done and (m.op in ("cast", "len")):
                late.append(m)
            done.add(m)
            cons += fs.of(m, cons)
            if m.op == "prod":
                for f in m.args:
                    for u in lin(f)[0]:
                        if u not in done:
                            done.add(u)
                            late.append(u)
                            cons += fs.of(u, cons)
        for x in list(nz):
            if entails(cons, x):
                cons.append(lin(sub(x, INT(1))))
                nz.remove(x)
            elif entails(cons, mulc(x, -1)):
                cons.append(lin(sub(mulc(x, -1), INT(1))))
                nz.remove(x)
    for m in late:
        cons += fs.of(m, cons)
    # products
    ps = [m for m in monomials(cons) if m.op == "prod" and len(m.args) == 2]
    for p in ps:
        if all(entails(cons, f) for f in p.args):
            cons.append(lin(p))
    for p in ps:
        for q in ps:
            if p is q:
                continue
            for i in (0, 1):
                for j in (0, 1):
                    if p.args[i] is q.args[j] and entails(cons, p.args[i]):
                        F, f, B = p.args[1 - i], q.args[1 - j], p.args[i]
                        if entails(cons, sub(sub(F, f), INT(1))):
                            cons.append(lin(sub(sub(p, q), B)))
    return cons


# ------------------------------------------------------------------- paths
def ranges(L, k):
    n = loop_len(L) if L.op == "L" else None
    out = [pos(add(k, INT(1)))]
    if n is not None:
        out.append(pos(sub(n, k)))
    return out


def possible(guard, known=(), clash=None, budget=20.0):
    end = time.time() + budget
    fs = Facts(known)
    fresh = [0]

    def instance(a, used):
        L, body = a.args[0], a.args[1]
        k = mk("k", L)
        if L in used:
            fresh[0] += 1
            j = mk("sym", "inst%d" % fresh[0])
            body = tm.subst_k(body, L, j)
            k = j
        return as_bool(body), k, L

    def rec(pending, lits, inst, done):
        if time.time() > end:
            raise GiveUp()
        while pending:
            d = as_bool(pending[-1])
            pending = pending[:-1]
            if d is TRUE:
                continue
            if d is FALSE:
                return None
            a, hi, lo = d.args
            if a in lits:
                pending = pending + [hi if lits[a] else lo]
                continue
            for val, br in ((True, hi), (False, lo)):
                br = as_bool(br)
                if br is FALSE:
                    continue
                l2 = dict(lits)
                l2[a] = val
                p2 = [assume(as_bool(q), a, val) for q in pending] + [assume(br, a, val)]
                if any(q is FALSE for q in p2):
                    continue
                i2 = inst
                if a.op == "exists" and val:
                    b, k, L = instance(a, [x for x, _ in inst])
                    i2 = inst + [(L, k)]
                    p2 = p2 + [b] + ranges(L, k)
                if a.op in ("pos", "zero") or fs.literal(a, val):
                    if infeasible(close(l2, fs)):
                        continue
                r = rec(p2, l2, i2, done)
                if r is not None:
                    return r
            return None
        # everything chosen: instantiate what holds for all elements
        new, d2 = [], set(done)
        cons = None
        for a, v in lits.items():
            if a.op != "exists" or v:
                continue
            L, body = a.args[0], a.args[1]
            n = loop_len(L) if L.op == "L" else None
            cands = [k for M, k in inst if M.op == L.op == "L" and (M.args[0] is L.args[0] or L.args[0].op in ("over", "range") and n is not None and loop_len(M) is n and (L.args[0].op == "over" or L.args[0].args[0] is INT(0)))]
            if L.op == "L" and L.args[0].op == "over":
                X = chosen(L.args[0].args[0], lits)
                for b, _ in lits.items():
                    for u in subterms(b):
                        if u.op == "idx" and u.args[0] is X and not any(w.op in ("mu",) for w in subterms(u.args[1])):
                            if cons is None:
                                cons = close(lits, fs)
                            if u.args[1] not in cands and entails(cons + fs.of(length(X), cons), sub(sub(length(X), u.args[1]), INT(1))) and entails(cons, u.args[1]):
                                cands.append(u.args[1])
            steps = set()
            kL = mk("k", L)
            for u in subterms(body):
                if u.op == "idx" and kL not in free_ks(u.args[0]):
                    d = sub(u.args[1], kL)
                    if d.op == "int":
                        steps.add((chosen(u.args[0], lits), d))
            n = n if n is None else chosen(n, lits)
            if steps and n is not None:
                for b, _ in lits.items():
                    for u in subterms(b):
                        if u.op != "idx" or any(w.op == "mu" for w in subterms(u.args[1])):
                            continue
                        for X, d in steps:
                            if u.args[0] is X:
                                i = sub(u.args[1], d)
                                if i not in cands and kL not in subterms(i):
                                    if cons is None:
                                        cons = close(lits, fs)
                                    if within(cons, i, n, fs):
                                        cands.append(i)
            for k in cands:
                if (a, k) not in d2:
                    d2.add((a, k))
                    new.append(NOT(as_bool(tm.subst_k(body, L, k))))
        if not new:
            cons = close(lits, fs)
            return None if infeasible(cons) or clash and clash(lits) else lits
        return rec(new, lits, inst, d2)
    g = as_bool(guard)
    return rec([g], {}, [], set())


def some_element(src, n):
    """(term for some element of the sequence, [(loop, index)]) or None"""
    def fresh():
        n[0] += 1
        return mk("sym", "some%d" % n[0])
    while src.op == "call" and src.args[0] in ("sorted", "map_iter", "set", "dedup", "reversed", "collect") or src.op == "sorted":
        src = src.args[0] if src.op == "sorted" else src.args[1]
    if src.op == "coll" and src.args[0].op == "L":
        L = src.args[0]
        bodies = [l for l in leaves(src.args[1]) if not (l.op == "seq" and not l.args)]
        if len(bodies) != 1 or bodies[0].op != "seq" or len(bodies[0].args) != 1:
            return None
        j = fresh()
        x = tm.subst_k(bodies[0].args[0].args[0], L, j)
        if bodies[0].args[0].op == "it":
            return x, [(L, j)]
        y = some_element(x, n)
        return y and (y[0], [(L, j)] + y[1])
    if src.op in ("call", "f", "par", "sym", "idx"):
        j = fresh()
        return index(src, j), [(mk("L", mk("over", src), -1), j)]
    return None


def members(t):
    """sorted, grouped and flattened sequences replaced by some element of what they were made of:
    every element of the former is an element of the latter.  Also what is known of the positions
    of those elements (unless the sequence is empty)"""
    n = [0]
    inst = []
    for _ in range(4):
        m = {}
        for u in subterms(t):
            if u.op != "idx":
                continue
            x = u.args[0]
            if x.op == "call" and x.args[0] in ("sorted", "map_iter", "set", "dedup") or x.op in ("sorted", "coll"):
                y = some_element(x, n)
                if y:
                    m[u] = y[0]
                    inst.append((x, y[1]))
        if not m:
            break
        t = subst(t, m)
        inst = [(subst(x, m), js) for x, js in inst]
    where = TRUE
    for x, js in inst:
        g = TRUE
        for L, j in js:
            for r in ranges(L, j):
                g = AND(g, r)
        where = AND(where, OR(zero(length(x)), g))
    return t, where


def shown(lits, depth=6):
    return " and ".join(("" if v else "not ") + show(a, depth) for a, v in lits.items())
