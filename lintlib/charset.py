"""Functions of one character: the guards on each path of the decision diagram as intervals with
residues, the results as linear functions of the code point."""
import math
from .terms import *
from .terms import lin_parts

VALID = ((0, 0xD7FF), (0xE000, 0x10FFFF))
TOP = 0x10FFFF


class NoCharacter(Exception):
    pass


def const(t):
    c, ts = lin_parts(t)
    if ts:
        raise NoCharacter("not a constant: %s" % (t,))
    return c


def modulus(t, v):
    """(m, k): t == (v mod m) + k, up to sign"""
    c, ts = lin_parts(t)
    if len(ts) != 1 or ts[0][1] not in (1, -1):
        return None
    u, s = ts[0]
    if u.op == "bin" and u.args[0] in ("Rem", "BitAnd") and u.args[1] is v:
        n = const(u.args[2])
        if u.args[0] == "Rem":
            return n, c * s
        if n & (n + 1) == 0:
            return n + 1, c * s
    return None


def linear(t, v):
    """(a, b): t == a*v + b"""
    c, ts = lin_parts(t)
    if not ts:
        return 0, c
    if len(ts) == 1 and ts[0][0] is v:
        return ts[0][1], c
    return None


def trim(S):
    return [s for s in S if s[0] <= s[1] and s[3]]


def cut(S, lo, hi):
    return trim([(max(a, lo), min(b, hi), M, R) for a, b, M, R in S])


def split(cond, v, S):
    """the parts of the set S (a list of (lo, hi, modulus, residues)) on which cond holds, and fails"""
    x = cond.args[0]
    m = modulus(x, v) if isT(x) else None
    if m:
        n, k = m
        yes, no = [], []
        for lo, hi, M, R in S:
            L = M * n // math.gcd(M, n)
            ex = [r + M * i for r in R for i in range(L // M)]
            ok = {r for r in ex if (r % n + k == 0 if cond.op == "zero" else r % n + k > 0)}
            yes.append((lo, hi, L, tuple(r for r in ex if r in ok)))
            no.append((lo, hi, L, tuple(r for r in ex if r not in ok)))
        return trim(yes), trim(no)
    if cond.op in ("zero", "pos"):
        r = linear(x, v)
        if r is None or r[0] not in (1, -1):
            raise NoCharacter("guard %s" % (cond,))
        a, b = r
        if cond.op == "zero":
            p = -b * a
            return cut(S, p, p), cut(S, 0, p - 1) + cut(S, p + 1, TOP)
        if a == 1:
            return cut(S, 1 - b, TOP), cut(S, 0, -b)
        return cut(S, 0, b - 1), cut(S, b, TOP)
    raise NoCharacter("guard %s" % (cond,))


def elements(S):
    for lo, hi, M, R in S:
        R = set(R)
        for x in range(lo, hi + 1):
            if x % M in R:
                yield x


def parts(t, v):
    """[(set of characters, leaf)] of the decision diagram t over the character v"""
    out = []

    def go(u, S):
        if not S:
            return
        if u.op != "cond":
            out.append((S, u))
            return
        y, n = split(u.args[0], v, S)
        go(u.args[1], y)
        go(u.args[2], n)
    go(t, [(a, b, 1, (0,)) for a, b in VALID])
    return out


def free(t):
    """the quantities t depends on"""
    out, seen = set(), set()

    def lin(x):
        for u, _ in lin_parts(x)[1]:
            if u.op == "bin":
                lin(u.args[1])
                lin(u.args[2])
            else:
                out.add(u)

    def go(u):
        if u in seen:
            return
        seen.add(u)
        if u.op == "cond":
            a = u.args[0]
            if a.op in ("zero", "pos"):
                lin(a.args[0])
            else:
                out.add(a)
            go(u.args[1])
            go(u.args[2])
        elif u not in (TRUE, FALSE) and u.op not in ("undef", "dead"):
            lin(u)
    go(t)
    return out


def of_one_character(t):
    """{code point: code point} wherever t changes its character; NoCharacter if t is no such function"""
    vs = free(t)
    if len(vs) != 1:
        raise NoCharacter("it depends on %d quantities" % len(vs))
    v = vs.pop()
    out = {}
    for S, leaf in parts(t, v):
        if leaf.op in ("undef", "dead"):
            continue
        r = linear(leaf, v)
        if r is None:
            raise NoCharacter("result %s" % (leaf,))
        if r != (1, 0):
            for x in elements(S):
                out[x] = r[0] * x + r[1]
    return out
