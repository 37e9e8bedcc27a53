"""What Lattice::set_text puts into the lattice: every candidate with the condition under
which it is added, and where its id is registered."""
from .common import *
from .c27 import method

OPAQUE = (("PrefixDict", "prefix"), ("CharacterDefinitions", "lookup_categories"), ("CharacterDefinitions", "lookup_definition"))
NONE = mk("adt", "?", "None", ())


class Cand:
    def __init__(self, edge, guard, loops, mus):
        self.edge, self.guard, self.loops, self.mus = edge, guard, loops, mus


class Lat:
    pass


def param(c, key, ty):
    """the parameter of a function whose type mentions `ty`"""
    f = c.w().fns[key]
    ns = fn_params(c, key)
    m = [n for i, n in enumerate(ns, 1) if ty in str(f.locals[i].get("ty"))]
    decided(len(m) == 1, "%s: parameters of type %s: %s" % (key, ty, m))
    return mk("par", m[0])


def is_edge(t):
    return t.op == "adt" and t.args[0].split("::")[-1] == "Edge"


def bases(t):
    """what a list was before things were added to it"""
    out, todo, seen = set(), [t], set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "cond":
            todo += [u.args[1], u.args[2]]
        elif u.op in ("app", "updi", "fin"):
            todo.append(u.args[0])
        else:
            out.add(u)
    return out


def lattice(c):
    if hasattr(c, "_lat"):
        return c._lat
    S = Lat()
    S.key = method(c, "Lattice", "set_text")
    ops = []
    for adt, name in OPAQUE:
        ops.append(method(c, adt, name))
    S.r = r = c.analyse(S.key, opaque=tuple(ops))
    S.p = {"dict": None}
    f = c.w().fns[S.key]
    ns = fn_params(c, S.key)
    for i, n in enumerate(ns, 1):
        ty = str(f.locals[i].get("ty"))
        for role, pat in (("user", "Option<"), ("text", "str"), ("mode", "mode::Mode"), ("cd", "CharacterDefinitions"),
                          ("ud", "UnknownDictionary"), ("dict", "PrefixDict")):
            if pat in ty and (role != "text" or ty in ("&str", "&'_ str")):
                S.p[role] = mk("par", n)
                break
    decided(all(S.p.get(x) is not None for x in ("user", "text", "mode", "cd", "ud", "dict")), "parameters of set_text: %s" % ns)
    # the loop over start positions
    steps = {}
    for l in r.loops:
        for m in l.steps:
            steps[m] = l
    S.steps = steps
    S.lens = {}
    for l in r.loops:
        S.lens.update({k: v for k, v in l.inmap.items() if k.op == "len"})
    # families of loop-carried lists: a list, and what it is inside nested loops
    S.fam = {}

    def family(root):
        F = {root}
        more = True
        while more:
            more = False
            for m, l in steps.items():
                if m not in F and bases(l.inits[m]) & F:
                    F.add(m)
                    more = True
        return F
    fs = r.final("self")
    roots = set()
    for lf in leaves(fs):
        for u in subterms(lf):
            if u.op == "fin":
                roots.add(u.args[0])
    S.roots = roots
    S.edges = S.e0 = None
    for m in roots:
        if any(is_edge(x) for x in subterms(steps[m].inits[m])) or any(is_edge(x) for x in subterms(steps[m].steps[m])):
            if m.args[0] is steps[m].L and is_edge_list(steps, m, family(m)):
                S.e0 = m
    decided(S.e0 is not None, "no list of candidates in the lattice")
    S.L0 = S.e0.args[0]
    S.k0 = mk("k", S.L0)
    S.edges = family(S.e0)
    S.other = {m: family(m) for m in roots if m is not S.e0}
    src = S.L0.args[0]
    over = src.args[0] if src.op == "over" else None
    S.full = over is S.p["text"] or (src.op == "range" and src.args[1] is length(S.p["text"]))
    S.cands = []
    walk(S, steps[S.e0].steps[S.e0], TRUE, (S.L0,))
    merged = {}
    for x in S.cands:
        k = (x.edge, x.loops)
        if k in merged:
            merged[k].guard = OR(merged[k].guard, x.guard)
        else:
            merged[k] = x
    S.cands = list(merged.values())
    c._lat = S
    return S


def is_edge_list(steps, m, fam):
    for x in fam:
        for lf in leaves(steps[x].steps[x]):
            while lf.op == "app":
                it = lf.args[1]
                if it.args[0] == "push" and is_edge(it.args[1]):
                    return True
                if it.args[0] == "extend" and any(is_edge(u) for u in subterms(it.args[1])):
                    return True
                lf = lf.args[0]
    return False


def walk(S, t, g, loops):
    """the candidates appended in t"""
    if g is FALSE:
        return
    if t.op == "cond":
        a = as_bool(t.args[0]) if t.args[0].op != "cond" else t.args[0]
        walk(S, t.args[1], AND(g, a), loops)
        walk(S, t.args[2], AND(g, NOT(a)), loops)
    elif t.op == "app":
        walk(S, t.args[0], g, loops)
        it = t.args[1]
        if it.args[0] == "push":
            S.cands.append(Cand(it.args[1], g, loops, None))
        elif it.args[0] == "extend":
            tree(S, it.args[1], g, loops)
        else:
            raise Undecided("candidates are added by %s" % show(it, 3))
    elif t.op == "fin" or t.op == "mu":
        m = t.args[0] if t.op == "fin" else t
        if m is S.e0:
            return
        l = S.steps.get(m)
        decided(l is not None, "candidates come from %s" % show(t, 4))
        real = [b for b in l.brk if b is not FALSE]
        if real and m.args[0].args[0].op == "over":
            raise Violated("the loop over %s that adds candidates ends early if %s" % (show(m.args[0].args[0].args[0], 5), show(real[0], 5)))
        raise Undecided("candidates added by a loop without a closed form: %s" % show(t, 4))
    else:
        raise Undecided("candidate list becomes %s" % show(t, 5))


def tree(S, t, g, loops):
    if t.op == "coll":
        coll_tree(S, t.args[1], g, loops + (t.args[0],))
    elif t.op == "cond":
        a = as_bool(t.args[0]) if t.args[0].op != "cond" else t.args[0]
        tree(S, t.args[1], AND(g, a), loops)
        tree(S, t.args[2], AND(g, NOT(a)), loops)
    elif t.op == "arr":
        for x in t.args:
            S.cands.append(Cand(x, g, loops, None))
    else:
        raise Undecided("candidates collected as %s" % show(t, 5))


def coll_tree(S, t, g, loops):
    if g is FALSE:
        return
    if t.op == "cond":
        a = as_bool(t.args[0]) if t.args[0].op != "cond" else t.args[0]
        coll_tree(S, t.args[1], AND(g, a), loops)
        coll_tree(S, t.args[2], AND(g, NOT(a)), loops)
    elif t.op == "seq":
        for e in t.args:
            if e.op == "it":
                S.cands.append(Cand(e.args[0], g, loops, None))
            else:
                tree(S, e.args[0], g, loops)
    else:
        raise Undecided("candidates collected as %s" % show(t, 5))


def registrations(S):
    """per loop that adds a candidate: (edge, {list root: (index, id)}, list length before, loop)"""
    out = []
    for m in S.edges:
        l = S.steps[m]
        st = l.steps[m]
        for lf, g in cases_of(st):
            if lf.op == "app" and lf.args[0] is m and lf.args[1].args[0] == "push" and is_edge(lf.args[1].args[1]):
                e = lf.args[1].args[1]
                regs = {}
                for root, F in S.other.items():
                    for x in l.steps:
                        if x in F:
                            v = restrict(l.steps[x], g)
                            regs.setdefault(root, []).append((x, v))
                out.append((e, regs, m, l, g))
    return out


def cases_of(t):
    """(leaf, condition) pairs"""
    out = {}

    def go(u, g):
        if g is FALSE:
            return
        if u.op == "cond":
            a = as_bool(u.args[0])
            go(u.args[1], AND(g, a))
            go(u.args[2], AND(g, NOT(a)))
        else:
            out[u] = OR(out.get(u, FALSE), g)
    go(t, TRUE)
    return list(out.items())


def registered(S):
    """{root: 'start'|'stop'} and the obligations on the way: each candidate's id is put in
    exactly the lists of its own start and of its own end"""
    roles = {}
    n = 0
    for e, regs, m, l, g in registrations(S):
        n += 1
        at = {"start": uncast(field(e, "start_index")), "stop": uncast(field(e, "stop_index"))}
        got = {}
        for root, vs in regs.items():
            for x, v in vs:
                if v is x:
                    continue
                decided(v.op == "updi" and v.args[0] is x, "list of ids becomes %s" % show(v, 5))
                i, val = v.args[1], v.args[2]
                if not (val.op == "app" and val.args[1].args[0] == "push"):
                    raise Undecided("list of ids becomes %s" % show(val, 5))
                require(val.args[0] is index(x, i), "the ids at %s are replaced by those at another position: %s" % (show(i, 4), show(val.args[0], 5)))
                idx = uncast(i)
                which = [k for k, p in at.items() if p is idx]
                if len(which) != 1:
                    raise Violated("a candidate from %s to %s is registered at %s" % (show(at["start"], 4), show(at["stop"], 5), show(idx, 5)))
                require(which[0] not in got, "a candidate is registered twice at its %s" % which[0])
                got[which[0]] = root
                require(roles.setdefault(which[0], root) is root, "candidates are registered at their %s in different lists" % which[0])
                eid = strip_cast(field(val.args[1].args[1], "0"))
                init = l.inits[m]
                want = add(length(init), psum(l.L, INT(1), mk("k", l.L)))
                for _ in range(3):
                    m2 = {u: S.lens[u] for u in subterms(want) if u in S.lens}
                    if not m2:
                        break
                    want = subst(want, m2)
                same(uncast(eid), uncast(want), "id under which a candidate is registered (its index in the candidate list)",
                     extra_vocab=vocab(want))
        for k in at:
            require(k in got, "a candidate is not registered at its %s" % k)
    decided(n > 0, "no candidate is added in a loop")
    decided(len(set(roles.values())) == 2, "starts and ends are kept in one list")
    return roles, n
