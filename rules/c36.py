"""C36. Every position at which Lattice::set_text or Tokenizer::tokenize cuts a text, and every
start and end of a candidate, is derived as a character boundary of that text (lintlib/cuts.py).
The induction the lattice relies on: a position is used as a start only if some candidate is
registered as ending there (or it comes from a character iterator); every candidate is registered
at its own end and its end is a boundary if its start is; what is registered at first is the start
of the sentence.  Lengths added to a start must be the length of a match PrefixDict::prefix reports
for the text from that start on, or of whole characters of it; a match is one the trie reports.  The
offsets read off the lattice are starts of candidates (see C20) and are only used for the sentence
they were computed from."""
from .lattice import *
from .c01 import offset_fields
from lintlib.cuts import Cuts, forced

ASSUMES = ["the keys of a dictionary's trie are whole strings (C06)", "yada: common_prefix_search reports the lengths of keys the text starts with"]


class InLattice(Cuts):
    """positions some candidate ends at are boundaries"""
    def __init__(self, s, stops, searches):
        Cuts.__init__(self, s.r.loops, searches)
        self.s, self.stops = s, stops

    def cut(self, v, b, guard=TRUE, seen=frozenset()):
        if v is self.s.p["text"] and uncast(b) is self.s.k0:
            if self.place(v, b):
                return True
            if not self.s.full:
                return Cuts.cut(self, v, b, guard, seen)
            some = zero(length(index(self.stops, self.s.k0)))
            if forced(guard, lambda a, val: AND(a if val else NOT(a), some) is FALSE):
                return True
            for a in atoms_in(guard):
                if a.op == "cond" or a.op == "exists":
                    continue
                if self.at_other(a):
                    continue
                if self.stops in subterms(a) or any(u.op == "call" and u.args[0] == "str::is_char_boundary" for u in subterms(a)):
                    return None
            return False
        return Cuts.cut(self, v, b, guard, seen)


    def at_other(self, a):
        """a tests the candidates that end at a position computed from this one"""
        xs = [u for u in subterms(a) if u.op == "idx" and u.args[0] is self.stops]
        if not xs:
            return False
        for x in xs:
            i = uncast(x.args[1])
            if i is self.s.k0 or any(uncast(t) is not self.s.k0 and t.op != "len" for t, _ in lin_parts(i)[1]):
                return False
        return True


def atoms_in(g):
    return [u.args[0] for u in subterms(as_bool(g)) if u.op == "cond"] + [u for u in subterms(as_bool(g)) if u.op == "exists"]


class OfOffsets(Cuts):
    """starts the lattice reports for a sentence are boundaries of it"""
    def __init__(self, r, part, setter, nth):
        Cuts.__init__(self, r.loops)
        self.part, self.setter, self.nth = part, setter, nth
        self.other = []

    def place(self, v, b):
        if Cuts.place(self, v, b):
            return True
        if b.op == "f" and b.args[2] == self.part and b.args[0].op == "idx":
            o = b.args[0].args[0]
            if o.op == "call" and o.args[0].endswith("tokens_offset"):
                t = o.args[1]
                while t.op == "mut":
                    args = flat(t.args[2])
                    if str(t.args[0]) == self.setter or str(t.args[0]).endswith("set_text"):
                        if args[self.nth] is v:
                            return True
                        self.other.append((v, args[self.nth]))
                        return False
                    t = args[0]
        return False


def check(c):
    c.w()
    n = [0]

    def S():
        return lattice(c)

    def stops():
        s = S()
        return registered(s)[0]["stop"]

    def judge(q, v, b, guard, what):
        n[0] += 1
        k = q.cut(v, b, as_bool(guard))
        if k is False:
            raise Violated("%s %s of %s need not be a character boundary%s" % (
                what, show(b, 6), show(v, 5), "" if guard is TRUE else ", if %s" % show(guard, 5)))
        return None if k else "%s %s of %s" % (what, show(b, 6), show(v, 4))

    def names(s):
        return tuple(k for k in s.r.opaque if k.endswith("PrefixDict::prefix")) + ("PrefixDict::prefix",)

    def candidates():
        s = S()
        q = InLattice(s, stops(), names(s))
        und = None
        for x in s.cands:
            for what in ("start_index", "stop_index"):
                und = judge(q, s.p["text"], uncast(field(x.edge, what)), x.guard, "the %s of a candidate," % what.split("_")[0]) or und
        require(s.cands, "there are no candidates")
        decided(und is None, und)
        return "%d kinds" % len(s.cands)

    def first():
        s = S()
        q = InLattice(s, stops(), names(s))
        t = s.steps[stops()].inits[stops()]
        m = 0
        for lf in leaves(t):
            while lf.op == "updi":
                und = judge(q, s.p["text"], uncast(lf.args[1]), TRUE, "a position registered at first,")
                decided(und is None, und)
                m += 1
                lf = lf.args[0]
        return "%d positions" % m

    def cuts():
        s = S()
        q = InLattice(s, stops(), names(s))
        und, m = None, 0
        for p in s.r.panics:
            if p.kind == "event:cut" and p.guard is not FALSE:
                v, a, b = p.detail
                for x in (a, b):
                    m += 1
                    und = judge(q, v, x, p.guard, "the text is cut (in %s) at" % p.fn.split("::")[-1]) or und
        decided(und is None, und)
        return "%d positions" % m

    def prefix():
        r = c.analyse("PrefixDict::prefix", crate="lindera_core")
        s = mk("par", fn_params(c, r.key)[1])
        q = Cuts(r.loops)
        from lintlib.cuts import elements
        colls = [u for u in subterms(r.ret) if u.op == "coll"]
        top = [u for u in colls if not any(v is not u and u in subterms(v) for v in colls)]
        decided(len(top) == 1, "prefix matches are %s" % show(r.ret, 5))
        els = elements(top[0])
        decided(els, "prefix matches are %s" % show(r.ret, 5))
        for e in els:
            ln = uncast(field(e, "0"))
            und = judge(q, s, ln, TRUE, "the length of a match,")
            decided(und is None, und)
        return "%d kinds of match" % len(els)

    def tokens():
        key = method(c, "Tokenizer", "tokenize")
        lat = [method(c, "Lattice", x) for x in ("set_text", "calculate_path_costs", "tokens_offset")]
        r = c.analyse(key, opaque=tuple(lat))
        ns = fn_params(c, lat[0])
        f = c.w().fns[lat[0]]
        nth = [i for i in range(len(ns)) if str(f.locals[i + 1].get("ty")) in ("&str", "&'_ str")]
        decided(len(nth) == 1, "parameters of set_text: %s" % ns)
        q = OfOffsets(r, offset_fields(c)[0], lat[0], nth[0])
        und, m = None, 0
        for p in r.panics:
            if p.kind == "event:cut" and p.guard is not FALSE:
                v, a, b = p.detail
                for x in (a, b):
                    m += 1
                    k = q.cut(v, x, as_bool(p.guard))
                    n[0] += 1
                    if k is False or (not k and q.other):
                        raise Violated("a token is cut from %s at %s%s, which need not be a character boundary" % (
                            show(v, 5), show(x, 6), ", an offset in %s" % show(q.other[0][1], 4) if q.other else ""))
                    if not k:
                        und = "a token is cut from %s at %s" % (show(v, 4), show(x, 6))
        decided(und is None, und)
        return "%d positions" % m

    if c.ob("registration", lambda: "%d kinds" % registered(S())[1]):
        c.ob("first position", first)
        c.ob("candidates", candidates)
        c.ob("text cut while filling the lattice", cuts)
    c.ob("prefix matches", prefix)
    c.ob("text cut into tokens", tokens)
    c.counts["text positions proved to be character boundaries"] = n[0]
