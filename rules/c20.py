"""C20. Lattice::calculate_path_costs is reduced to the update it makes to each candidate, and
Lattice::tokens_offset to the list it reads off the lattice.  The rule: for every position in
ascending order and every candidate starting there, predecessor and accumulated cost are set from
one and the same minimum, taken over all candidates ending there, of their accumulated cost plus
the connection cost (right context of the left word, left context of the right word) plus the
mode's penalty of the left word; the accumulated cost adds the candidate's own word cost.  The
offsets follow the predecessors from the end of the sentence, give start and word id of every
candidate on the way, are put into text order and lose exactly the end marker."""
from .lattice import *

ASSUMES = ["accumulated costs fit 32 bits"]


def arg_min(r, best):
    """(loop, left element, cost, value(f)) of a minimum; value maps the chosen element into terms"""
    if best.op == "call" and best.args[0] == "min_by_key":
        co = best.args[1]
        decided(co.op == "coll", "the minimum is taken over %s" % show(co, 4))
        L, tr = co.args
        require(tr.op == "seq", "a left candidate is not considered if %s" % show(tr, 5))
        decided(len(tr.args) == 1 and tr.args[0].op == "it", "the minimum is taken over %s" % show(tr, 5))
        it = tr.args[0].args[0]
        return L, field(it, "0"), field(it, "1")
    raise Undecided("the predecessor is chosen as %s" % show(best, 5))


def scanned(r, step):
    """a minimum found by a loop that keeps the best candidate: {fin term: value at the best}"""
    fins = {u for u in subterms(step) if u.op == "fin" and u.args[0].args[0].args[0].op == "over"}
    by = {}
    for f in fins:
        by.setdefault(f.args[0].args[0], []).append(f)
    return by


def check(c):
    c.w()
    st = {}

    def roles():
        s = lattice(c)
        ro, _ = registered(s)
        out = {}
        for k, m in ro.items():
            n = [e[1] for e in final_fields(s.r.final("self")) if any(u.op == "fin" and u.args[0] is m for u in subterms(e[2]))]
            decided(len(n) == 1, "list of ids by %s is kept in %s" % (k, n))
            out[k] = n[0]
        n = [e[1] for e in final_fields(s.r.final("self")) if any(u.op == "fin" and u.args[0] is s.e0 for u in subterms(e[2]))]
        out["edges"] = n[0]
        return out

    def final_fields(t):
        out = {}
        for lf in leaves(t):
            if lf.op == "upd":
                for (v, n), x in lf.args[1]:
                    out[(n, x)] = (v, n, x)
            elif lf.op == "adt":
                for n, x in lf.args[2]:
                    out[(n, x)] = (None, n, x)
        return list(out.values())

    def recurrence():
        ro = roles()
        key = method(c, "Lattice", "calculate_path_costs")
        cost, pen = method(c, "ConnectionCostMatrix", "cost"), method(c, "Mode", "penalty_cost")
        r = c.analyse(key, opaque=(cost, pen))
        M, D = param(c, key, "ConnectionCostMatrix"), param(c, key, "mode::Mode")
        cn = [k for k in r.opaque if k.endswith("::cost")]
        pn = [k for k in r.opaque if k.endswith("::penalty_cost")]
        F = {k: field(SELF, v) for k, v in ro.items()}
        ups = []
        for l in r.loops:
            for m, t in l.steps.items():
                for lf, g in cases_of(t):
                    if lf.op == "updi" and lf.args[0] is m:
                        ups.append((l, m, lf, g, t))
        require(ups, "no candidate gets a cost or predecessor")
        decided(len(ups) == 1, "candidates are updated in %d places" % len(ups))
        l, m, up, g, t = ups[0]
        # the candidate updated: every id in the list by start, position by position
        kR = mk("k", l.L)
        outer = [x for x in r.loops if x is not l and any(f.op == "fin" and f.args[0] is m for s_ in x.steps.values() for f in subterms(s_))]
        decided(len(outer) == 1, "loops around the update: %d" % len(outer))
        o = outer[0]
        kI = mk("k", o.L)
        src = o.L.args[0]
        both = (F["start"], F["stop"])
        whole = (src.op == "over" and set(leaves(src.args[0])) <= set(both)) or (src.op == "over" and src.args[0] in both) or \
                (src.op == "range" and src.args[0] is INT(0) and src.args[1] in (length(F["start"]), length(F["stop"])))
        decided(src.op in ("over", "range"), "positions are visited as %s" % show(src, 5))
        require(whole, "positions are visited as %s" % show(src, 5))
        for x in (o, l):
            real = [b for b in x.brk if b is not FALSE]
            require(not real, "a loop over positions or candidates ends early if %s" % (real and show(real[0], 5)))
            require(x.cont is TRUE, "a loop over positions or candidates continues only if %s" % show(x.cont, 5))
        rights = index(F["start"], kI)
        same(l.L.args[0], mk("over", rights), "candidates updated at a position")
        same(up.args[1], field(index(rights, kR), "0"), "candidate updated")
        right = index(m, up.args[1])
        new = up.args[2]
        pc, le = field(new, "path_cost"), field(new, "left_edge")
        for f in ("word_entry", "start_index", "stop_index", "kanji_only", "edge_type"):
            same(field(new, f), field(right, f), "%s of a candidate whose cost is computed" % f)
        maxs = [u for u in subterms(mk("tup", pc, le)) if u.op == "call" and u.args[0].startswith("max_by")]
        require(not maxs, "the predecessor is the most expensive candidate: %s" % (maxs and show(maxs[0], 5)))
        mins = {u for u in subterms(mk("tup", pc, le)) if u.op == "call" and u.args[0].startswith("min")}
        lefts = index(F["stop"], kI)
        if mins:
            decided(len(mins) == 1, "predecessor and cost are taken from different minima")
            best = mins.pop()
            L, k, v = arg_min(r, best)
            nm0 = {m: mk("par", "candidates")}
            same(subst(g, nm0), subst(isv(best, OPTION, "Some"), nm0), "condition for setting the predecessor", extra_vocab={cn[0], pn[0]} if cn and pn else ())
            pv = subst(pc, {field(best, "0", "Some"): v})
            lv = subst(le, {field(best, "0", "Some"): v})
        else:
            # a loop that keeps the best so far
            by = scanned(r, mk("tup", pc, le))
            decided(len(by) == 1, "the predecessor is chosen as %s" % show(le, 5))
            L, fs = by.popitem()
            li = [x for x in r.loops if x.L is L][0]
            decided(not [b for b in li.brk if b is not FALSE] and li.cont is TRUE, "search for the predecessor ends early")
            k, val = scan_min(li)
            mp = {f: val[f.args[0]] for f in fs if f.args[0] in val}
            decided(len(mp) == len(fs), "search for the predecessor keeps more than the best")
            pv, lv = subst(pc, mp), subst(le, mp)
            for f in fs:
                if val[f.args[0]].op == "adt":
                    g = restrict(g, isv(f, OPTION, "Some"))
            decided(g is TRUE or unresolved(g) is None, "condition for setting the predecessor: %s" % show(g, 5))
        same(L.args[0], mk("over", lefts), "candidates among which the predecessor is chosen")
        lid = index(lefts, mk("k", L))
        left = index(m, field(lid, "0"))
        decided(cn and pn, "costs and penalties are computed in an unknown way")
        want = add(add(field(left, "path_cost"),
                       mk("call", cn[0], M, field(field(left, "word_entry"), "right_id"), field(field(right, "word_entry"), "left_id"))),
                   mk("call", pn[0], D, left))
        voc = {cn[0], pn[0]}
        nm = {u: mk("par", "candidates") for u in (m,)}
        eq_ = lambda a, b, what: same(subst(uncast(a), nm), subst(uncast(b), nm), what, extra_vocab=voc)
        eq_(k, want, "cost by which the predecessor is chosen")
        require(lv.op == "adt" and lv.args[1] == "Some", "predecessor becomes %s" % show(lv, 5))
        eq_(field(lv, "0", "Some"), lid, "predecessor of a candidate")
        eq_(pv, add(want, field(field(right, "word_entry"), "word_cost")), "accumulated cost of a candidate")
        return "min over left of (cost(left) + connection + penalty) + own cost"

    def scan_min(li):
        """a loop that keeps the best so far: (cost compared, {mu: value of the best})"""
        ms = list(li.steps)
        changed = [m for m in ms if li.steps[m] is not m]
        cases = {}
        conds = set()
        for m in changed:
            cs = cases_of(li.steps[m])
            new = [(lf, g) for lf, g in cs if lf is not m]
            decided(len(new) == 1, "best so far becomes %s" % show(li.steps[m], 5))
            cases[m] = new[0][0]
            conds.add(new[0][1])
        decided(len(conds) == 1, "parts of the best so far change under different conditions")
        g = conds.pop()
        empty = [m for m in changed if li.inits[m].op == "adt" and li.inits[m].args[1] == "None"]
        none = FALSE
        for m in empty:
            a = isv(m, OPTION, "Some")
            if a in [as_bool(u) for u in atoms(g)] or any(u is a for u in subterms(g)) or True:
                none = OR(none, NOT(a))
        test = restrict(g, NOT(none)) if empty else g
        if empty:
            decided(restrict(g, none) is TRUE, "the first left candidate is not always taken: %s" % show(g, 5))
        ps = [u for u in atoms(test)]
        decided(len(ps) == 1 and ps[0].op == "pos", "best so far is replaced if %s" % show(test, 5))
        e = ps[0].args[0]
        sg = restrict(test, as_bool(ps[0])) is TRUE
        # the cost kept is one of the values kept
        keep = {}
        for m in changed:
            v = cases[m]
            old = field(m, "0", "Some") if m in empty else m
            v = field(v, "0", "Some") if m in empty else v
            if v.op == "tup":
                for i, x in enumerate(v.args):
                    keep[field(old, str(i))] = x
            else:
                keep[old] = v
        for old, new in keep.items():
            d = sub(old, new)
            for sign in (1, -1):
                rest = sub(e, mulc(d, sign))
                if rest.op == "int":
                    # e = +-(old - new) + const ; replaced when old > new (ties either way)
                    better = (sg and sign == 1 and rest.args[0] in (0, 1)) or ((not sg) and sign == -1 and rest.args[0] in (0, 1))
                    require(better, "the best so far is replaced if %s" % show(test, 5))
                    init = li.inits[[m for m in changed if m in subterms(old)][0]]
                    if not empty:
                        decided(init.op == "int" and init.args[0] >= 2 ** 31 - 1 or (init.op == "call" and "max_value" in init.args[0]),
                                "the best cost starts as %s" % show(init, 3))
                    return new, {m: cases[m] for m in changed}
        raise Undecided("best so far is replaced if %s" % show(test, 5))

    def offsets():
        ro = roles()
        key = method(c, "Lattice", "tokens_offset")
        r = c.analyse(key)
        E = field(SELF, ro["edges"])
        reads_ = lambda t: any(lf.op == "app" and any(u.op == "f" and u.args[0] is not SELF and u.args[2] == "left_edge" or u.op == "f" and u.args[2] in ("start_index", "stop_index", "word_entry")
                                                      for u in subterms(lf.args[1])) for lf in leaves(t))
        ls = [l for l in r.loops if any(reads_(t) for t in l.steps.values())]
        decided(len(ls) == 1, "loops of tokens_offset: %d" % len(r.loops))
        l = ls[0]
        lst = [m for m, t in l.steps.items() if any(lf.op == "app" for lf in leaves(t))][0]
        step = l.steps[lst]
        decided(step.op == "app" and step.args[0] is lst and step.args[1].args[0] == "push", "offsets become %s" % show(step, 5))
        item = step.args[1].args[1]
        ids = [m for m in l.steps if m is not lst and l.steps[m] is not m]
        decided(len(ids) == 1, "state of the walk: %s" % [show(m, 2) for m in ids])
        i = ids[0]
        # whatever is carried along (id or candidate), the candidate it stands for
        sv = strip_cast(field(item, "0"))
        starts = [u for u in subterms(item) if u.op == "f" and u.args[2] == "start_index"]
        require(starts, "offsets hold %s, not the start of a candidate" % show(item, 5))
        cur = starts[0].args[0]
        fields = {}
        for n, x in (enumerate(item.args) if item.op == "tup" else [(n, x) for n, x in item.args[2]]):
            fields[str(n)] = x
        sf = [n for n, x in fields.items() if uncast(x) is field(cur, "start_index")]
        wf = [n for n, x in fields.items() if x is field(field(cur, "word_entry"), "word_id")]
        require(len(sf) == 1, "no part of an offset is the start of the candidate: %s" % show(item, 6))
        require(len(wf) == 1, "no part of an offset is the word id of the candidate: %s" % show(item, 6))
        c.offset_fields = (sf[0], wf[0])
        le = field(cur, "left_edge")
        init = l.inits[i]
        if cur is i:
            same(l.steps[i], index(E, field(field(le, "0", "Some"), "0")), "next candidate of the walk")
            decided(init.op == "idx" and init.args[0] is E, "walk starts at %s" % show(init, 4))
            init = init.args[1]
        else:
            decided(cur is index(E, field(i, "0")), "candidate read off: %s" % show(cur, 5))
            same(l.steps[i], field(le, "0", "Some"), "next candidate of the walk")
            init = field(init, "0")
        more = isv(le, OPTION, "Some")
        nm = {i: mk("par", "candidate")}
        same(subst(l.cont, nm), subst(more, nm), "condition for going on to the predecessor")
        decided(init.op == "int", "walk starts at %s" % show(init, 4))
        eos = boundary_ids(lattice(c), registered(lattice(c))[0])["start"]
        # order and end marker
        ret, ops = r.ret, []
        t = ret
        while True:
            if t.op == "cond":
                # a list that is empty or shorter stays as it is
                ls_ = [x for x in leaves(t) if x.op != "arr"]
                t = sorted(ls_, key=lambda x: x.op != "slice")[0] if ls_ else t
            if t is lst or (t.op == "fin" and t.args[0] is lst):
                break
            if t.op == "call" and t.args[0] == "reversed":
                ops.append("reverse")
                t = t.args[1]
            elif t.op == "call" and t.args[0] == "vec_pop":
                ops.append("pop")
                t = t.args[1]
            elif t.op == "coll" and t.args[1].op == "seq" and len(t.args[1].args) == 1 and t.args[1].args[0].op == "it" and t.args[1].args[0].args[0].op == "idx":
                x, i = t.args[1].args[0].args[0].args
                n, kk = length(x), mk("k", t.args[0])
                m = loop_len(t.args[0])
                decided(m is not None and sub(n, m).op == "int" and add(i, kk).op != "int", "offsets are returned as %s" % show(ret, 6))
                gap = sub(n, m).args[0]
                top = sub(sub(n, INT(1)), add(i, kk))
                decided(top.op == "int", "offsets are taken from %s" % show(i, 4))
                # elements n-1-top down to gap-top
                ops += ["reverse"] if not gap else (["reverse", "pop"] if (gap, top.args[0]) == (1, 0) else ["reverse", "unshift"] if (gap, top.args[0]) == (1, 1) else ["reverse", "cut"])[::-1]
                t = x
            elif t.op == "slice":
                x = t.args[0]
                if t.args[1] is INT(0) and sub(length(x), t.args[2]) is INT(1):
                    ops.append("pop")
                elif t.args[2] is length(x) and t.args[1] is INT(1):
                    ops.append("unshift")
                else:
                    raise Violated("offsets are cut to %s" % show(t, 5))
                t = x
            else:
                raise Undecided("offsets are returned as %s" % show(ret, 6))
        ops = ops[::-1]
        require(init.args[0] == eos, "the walk starts at candidate %d, the end of the sentence is candidate %d" % (init.args[0], eos))
        rev, lost = False, []
        for o in ops:
            if o == "reverse":
                rev = not rev
            else:
                # the end marker is first before the list is reversed, last afterwards
                lost.append(o == ("pop" if rev else "unshift"))
        require(rev, "offsets are returned from the end of the sentence to its start")
        require(lost == [True], "of the walk %s is removed instead of the end marker alone" % (ops or "nothing"))
        return "start and word id along the predecessors, reversed, without the end marker"

    c.ob("cost recurrence", recurrence)
    c.ob("best path", offsets)


def boundary_ids(s, roles):
    ids = {}
    for role in ("stop", "start"):
        v = s.steps[roles[role]].inits[roles[role]]
        for lf in leaves(v):
            decided(lf.op == "updi", "boundary registered as %s" % show(lf, 4))
            for y in leaves(lf.args[2]):
                i = y.args[1].args[1] if y.op == "app" else y.args[0]
                n = field(i, "0")
                decided(n.op == "int", "boundary id %s" % show(n, 3))
                ids[role] = n.args[0]
    return ids
