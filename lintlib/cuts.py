"""Is a position in a string a character boundary?

`Cuts(loops).cut(v, b, guard)` is True if every value of b is a boundary of the string v whenever the
guard holds, False if b is a combination of lengths and numbers that need not be one, None if it is
something else.  Loop-carried positions are decided by induction: the first value is a boundary, and
each later one is if the previous was."""
from .terms import *
from .bounds import prefix_match

SEARCH = ("DoubleArray::common_prefix_search",)
WHERE = ("str::find", "str::rfind")


def uncast(t):
    while t.op == "cast":
        t = t.args[2]
    if t.op == "call" and t.args[0].startswith("try_") and len(t.args) == 2:
        return uncast(t.args[1])
    return t


def forced(g, test):
    """every way for g to hold makes some atom with test(atom, value) hold"""
    if g is FALSE:
        return True
    if g is TRUE:
        return False
    if g.op != "cond":
        return test(g, True) or g.op == "exists" and forced(as_bool(g.args[1]), test)
    a, hi, lo = g.args
    up = test(a, True) or a.op == "exists" and forced(as_bool(a.args[1]), test)
    return (up or forced(as_bool(hi), test)) and (test(a, False) or forced(as_bool(lo), test))


def values(t):
    """what an element of a collected sequence, or a field of it, may be"""
    t = uncast(t)
    if t.op == "cond":
        return [x for l in leaves(t) for x in values(l)]
    if t.op == "f":
        out = []
        for x in values(t.args[0]):
            y = field(x, t.args[2], t.args[1]) if x is not t.args[0] else t
            out += [y] if y is t else values(y)
        return out
    if t.op == "idx":
        els = elements(t.args[0])
        if els is not None:
            return els
    return [t]


def elements(x):
    if x.op == "call" and x.args[0] in ("sorted", "reversed", "collect", "dedup") and len(x.args) >= 2:
        r = elements(x.args[1])
        return r
    if x.op == "cond":
        out = []
        for l in leaves(x):
            e = elements(l)
            if e is None:
                return None
            out += e
        return out
    if x.op == "slice":
        return elements(x.args[0])
    if x.op == "coll":
        out = []
        for l in leaves(x.args[1]):
            if l.op != "seq":
                return None
            for p in l.args:
                if p.op == "it":
                    out += values(p.args[0])
                else:
                    e = elements(p.args[0])
                    out += [index(p.args[0], mk("sym", "some"))] if e is None else e
        return out
    return None


class Cuts:
    def __init__(self, loops, searches=()):
        self.steps = {}
        self.searches = tuple(searches)     # functions (.., s) whose items' field 0 are match lengths in s
        for l in loops:
            for m in l.steps:
                self.steps[m] = l

    # ------------------------------------------------------------------ ASCII strings
    def ascii(self, t, seen=frozenset()):
        if t.op == "str":
            return t.args[0].isascii()
        if t.op == "int":
            return 0 <= t.args[0] < 128
        if t.op == "cond":
            return all(self.ascii(l, seen) for l in leaves(t))
        if t.op == "app":
            it = t.args[1]
            return it.args[0] in ("push", "push_str") and self.ascii(t.args[0], seen) and self.ascii(it.args[1], seen)
        if t.op == "slice":
            return self.ascii(t.args[0], seen)
        if t.op in ("mu", "fin"):
            m = t if t.op == "mu" else t.args[0]
            if m in seen:
                return True
            l = self.steps.get(m)
            if l is None:
                return False
            s2 = seen | {m}
            return self.ascii(l.inits[m], s2) and self.ascii(l.steps[m], s2)
        if t.op == "call" and t.args[0] in ("str::repeat", "str::trim", "str::trim_start", "str::trim_end", "str::to_ascii_lowercase", "str::to_ascii_uppercase"):
            return self.ascii(t.args[1], seen)
        return False

    def ascii_prefix(self, v):
        """the number of bytes at the start of v that are ASCII for certain"""
        if v.op == "str":
            n = 0
            for ch in v.args[0]:
                if ord(ch) > 127:
                    break
                n += 1
            return n
        if v.op == "app":
            n = self.ascii_prefix(v.args[0])
            return n
        return 0

    # ------------------------------------------------------------------ boundaries
    def cut(self, v, b, guard=TRUE, seen=frozenset()):
        b = uncast(b)
        if v.op == "cond":
            return self.all([self.cut(l, b, guard, seen) for l in leaves(v)])
        if b.op == "cond":
            a, hi, lo = b.args
            return self.all([self.cut(v, hi, AND(guard, a) if a.op != "exists" else guard, seen),
                             self.cut(v, lo, AND(guard, NOT(a)) if a.op != "exists" else guard, seen)])
        if b is INT(0) or b is length(v) or self.ascii(v):
            return True
        if v.op == "slice":
            r = self.cut(v.args[0], add(v.args[1], b), guard, seen)
            if r is not None:
                return r
        vs = values(b)
        if len(vs) != 1 or vs[0] is not b:
            rs = []
            for x in vs:
                rs.append(self.cut(v, x, guard, seen) if x is not b else None)
            return self.all(rs)
        if b.op in ("mu", "fin"):
            m = b if b.op == "mu" else b.args[0]
            if (v, m) in seen:
                return True
            l = self.steps.get(m)
            if l is None or any(u.op == "mu" and u.args[0] is l.L for u in subterms(v)):
                return None
            s2 = seen | {(v, m)}
            return self.all([self.cut(v, l.inits[m], TRUE, s2), self.cut(v, l.steps[m], TRUE, s2)])
        if self.place(v, b):
            return True
        c, parts = lin_parts(b)
        bad = False
        for t, k in parts:
            if k != 1:
                continue
            rest = sub(b, t)
            for x in values(t):
                u = self.reaches(v, rest, x, guard)
                if u is None:
                    break
                if u is False:
                    bad = True
                    break
            else:
                r = self.cut(v, rest, guard, seen)
                if r is not None:
                    return r
        d = sub(length(v), b)
        if self.suffix(v, d, guard):
            return True
        if b.op == "int" and (self.ascii_prefix(v) >= b.args[0] >= 0 or self.starts(v, b, guard)):
            return True
        if bad or self.understood(v, b, guard, seen):
            return False
        return None

    def all(self, rs):
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True

    def place(self, v, b):
        """positions the library reports"""
        if b.op == "f" and b.args[2] == "0":
            x = b.args[0]
            if x.op == "idx" and x.args[0].op == "call" and x.args[0].args[0] in ("str::char_indices", "str::match_indices") and x.args[0].args[1] is v:
                return True
            if x.op == "call" and x.args[0] in WHERE and x.args[1] is v:
                return True
        for m in (u.args[1] for u in subterms(b) if u.op == "call" and u.args[0] == "Match::start"):
            x = m.args[1] if m.op == "call" and m.args[0] == "Captures::whole" else m
            if x.op == "idx" and x.args[0].op == "call" and x.args[0].args[0] in ("Regex::captures_iter", "Regex::find_iter") and x.args[0].args[2] is v:
                start = mk("call", "Match::start", m)
                if b is start or b is add(start, length(mk("call", "Match::as_str", m))):
                    return True
        if b.op == "f" and b.args[0].op == "call" and b.args[0].args[0] in WHERE:
            return b.args[0].args[1] is v
        return False

    def at(self, s, v, b):
        """s is v from b on (to some end)"""
        if s is v:
            return b is INT(0)
        if s.op == "call" and s.args[0] in ("str::bytes", "str::as_bytes") and len(s.args) == 2:
            return self.at(s.args[1], v, b)
        return s.op == "slice" and s.args[0] is v and uncast(s.args[1]) is uncast(b)

    def reaches(self, v, b, x, guard):
        """x is the length of whole characters of v from b on; False if it is certainly another thing"""
        x = uncast(x)
        s = prefix_match(x)
        if s is not None:
            return True if self.at(s, v, b) else None
        if x.op == "f" and x.args[0].op == "idx" and x.args[0].args[0].op == "call":
            n = x.args[0].args[0]
            if n.args[0] in self.searches:
                return self.at(n.args[2], v, b) and x.args[2] == "0" or None
            if n.args[0] in SEARCH and x.args[2] == "0":
                return False
        chars = mk("call", "str::chars", slice_(v, b, length(v)))
        if x.op == "call" and x.args[0] == "char::len_utf8":
            ch = x.args[1]
            if ch.op == "idx" and ch.args[0].op == "call" and ch.args[0].args[0] == "str::chars" and ch.args[1] is INT(0):
                return True if self.at(ch.args[0].args[1], v, b) else None
            if ch.op == "f" and ch.args[2] == "1" and ch.args[0].op == "idx":
                ci = ch.args[0].args[0]
                if ci.op == "call" and ci.args[0] == "str::char_indices":
                    return True if field(ch.args[0], "0") is b and ci.args[1] is v else None
            if forced(guard, lambda a, val: val and a.op == "call" and a.args[0] == "str::starts_with" and self.at(a.args[1], v, b) and a.args[2] is ch):
                return True
            return None
        if x.op == "len":
            w = x.args[0]
            if w.op == "call" and w.args[0] == "concat":
                w = w.args[1]
                if w.op == "coll" and w.args[1].op == "seq" and len(w.args[1].args) == 1 and w.args[1].args[0].op == "it":
                    if w.args[1].args[0].args[0] is index(chars, mk("k", w.args[0])):
                        src = w.args[0].args[0]
                        if src.op == "over" or src.op == "range" and src.args[0] is INT(0):
                            return True
                return None
            if forced(guard, lambda a, val: val and a.op == "call" and a.args[0] == "str::starts_with" and self.at(a.args[1], v, b) and a.args[2] is w):
                return True
        if x.op in ("sum", "psum"):
            L, t = x.args[0], uncast(x.args[1])
            src = L.args[0] if L.op == "L" else None
            if src is None:
                return None
            from0 = src.op == "over" or src.args[0] is INT(0)
            k = mk("k", L)
            if from0 and t.op == "call" and t.args[0] == "char::len_utf8" and t.args[1] is index(chars, k):
                return True
            if from0 and b is INT(0) and t.op == "len" and t.args[0].op == "idx" and t.args[0].args[1] is k:
                p = t.args[0].args[0]
                if p.op == "call" and p.args[0] in ("str::split_inclusive", "concat") and p.args[1] is v:
                    return True
        return None

    def lengths(self, v, a, b):
        """what b - a may be"""
        return [uncast(x) for x in leaves(uncast(sub(uncast(b), uncast(a))))]

    def suffix(self, v, d, guard):
        """d is the length of something v ends with"""
        if d.op == "cond":
            return all(self.suffix(v, l, guard) for l in leaves(d))
        def ends(p):
            return forced(guard, lambda a, val: val and a.op == "call" and a.args[0] == "str::ends_with" and a.args[1] is v and p(a.args[2]))
        d = uncast(d)
        if d.op == "int":
            n = d.args[0]
            return ends(lambda q: q.op == "int" and len(chr(q.args[0]).encode()) == n or q.op == "str" and len(q.args[0].encode()) == n)
        if d.op == "call" and d.args[0] == "char::len_utf8":
            return ends(lambda q: q is d.args[1])
        if d.op == "len":
            return ends(lambda q: q is d.args[0])
        return False

    def starts(self, v, b, guard):
        n = b.args[0]
        return forced(guard, lambda a, val: val and a.op == "call" and a.args[0] == "str::starts_with" and a.args[1] is v and (
            a.args[2].op == "int" and len(chr(a.args[2].args[0]).encode()) == n or a.args[2].op == "str" and len(a.args[2].args[0].encode()) == n))

    def understood(self, v, b, guard, seen):
        """b is made of lengths, and of positions known only to be boundaries"""
        at = None
        for t, k in lin_parts(b)[1]:
            t = uncast(t)
            if t.op == "len" or t.op == "call" and t.args[0] == "char::len_utf8" or t.op == "prod":
                continue
            if t.op == "k" and t.args[0].op == "L" and self.counts(t.args[0].args[0]):
                continue
            if t.op in ("bin", "int") or t.op == "sum" and uncast(t.args[1]).op == "call" and uncast(t.args[1]).args[0].startswith("char::len_utf"):
                continue
            if all(self.measured(x) for x in values(t)):
                continue
            if k == 1 and at is None:
                m = t.args[0] if t.op == "fin" else t
                if (v, m) in seen or t is not b and self.cut(v, t, guard, seen) is True:
                    at = t
                    continue
            return False
        # nothing has been asked about the bytes of the text
        return at is None or not self.looks(guard, v)

    def counts(self, src):
        """an index of this loop is a number of something other than bytes"""
        if src.op == "range":
            return True
        x = src.args[0] if src.op == "over" else None
        while x is not None and x.op == "slice":
            x = x.args[0]
        return x is not None and x.op == "call" and x.args[0] in ("str::chars", "str::char_indices")

    def measured(self, x):
        """the length of something found in a text"""
        if prefix_match(x) is not None:
            return True
        if x.op == "f" and x.args[0].op == "idx" and x.args[0].args[0].op == "call":
            n = x.args[0].args[0].args[0]
            return n in SEARCH or n in self.searches and x.args[2] == "0"
        return False

    def looks(self, g, v):
        while v.op == "slice":
            v = v.args[0]
        for u in subterms(g):
            if u.op == "call" and u.args[0] in ("str::is_char_boundary", "u8::is_ascii", "char::is_ascii", "str::is_ascii", "str::starts_with", "str::as_bytes", "str::get"):
                return True
            if u.op == "idx":
                x = u.args[0]
                while x.op == "slice" or x.op == "call" and x.args[0] in ("str::bytes", "str::as_bytes"):
                    x = x.args[0] if x.op == "slice" else x.args[1]
                if x is v:
                    return True
        return False
