"""C16. Auto-trait queries on the type-checked program (is the type Send, is it Sync) for every
dictionary, tokenizer, analyzer and filter type; a walk over their field types for cells; and a
census over all functions' MIR of operations the compiler does not check (calls of unsafe functions,
dereferences of raw pointers, mutable statics, hand-written unsafe impls).  The only unchecked
operation allowed is making a character of a code point; there the closed form of the function over
its input character is taken, the guards on each path are turned into intervals with residues, and
every resulting code point must be a valid character."""
import re
from .common import *
from lintlib import census as cs
from lintlib.charset import VALID, NoCharacter, of_one_character

CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|OnceCell|OnceLock|Lazy|LazyLock|LazyCell|Atomic\w+|ReentrantMutex|SyncUnsafeCell|DashMap)\b")
ROOTS = [("lindera_core", "Dictionary"), ("lindera_core", "UserDictionary"), ("lindera_tokenizer", "Tokenizer"),
         ("lindera_analyzer", "Analyzer"), ("lindera_filter", "BoxCharacterFilter"), ("lindera_filter", "BoxTokenFilter")]
CRATES = ("lindera_core", "lindera_tokenizer", "lindera_analyzer", "lindera_filter", "lindera_dictionary")


def adt_items(w):
    return [i for i in w.items if i.get("kind") in ("Struct", "Enum", "Union")]


def roots(c):
    w = c.w()
    out = []
    for cr, n in ROOTS:
        hit = [i for i in adt_items(w) if i["key"].split("::")[0] == cr and i["key"].split("::")[-1] == n]
        if not hit:
            raise Missing("type %s of %s" % (n, cr))
        out += hit
    heads = {str(i["self"]).split("<")[0].split("::")[-1] for i in w.impls
             if str(i.get("trait", "")).split("::")[-1] in ("CharacterFilter", "TokenFilter")}
    out += [i for i in adt_items(w) if i["key"].split("::")[0] == "lindera_filter" and i["key"].split("::")[-1] in heads and i not in out]
    return out


def fields(w, key):
    for p, a in w.adts.items():
        if a and a.get("key") == key:
            return [(v["name"], f["name"], f["ty"]) for v in a["variants"] for f in v["fields"]]
    return []


def cell_in(w, key, seen):
    if key in seen:
        return None
    seen.add(key)
    for v, f, ty in fields(w, key):
        if CELLS.search(ty):
            return "%s.%s: %s" % (key, f, ty)
        for path in re.findall(r"[A-Za-z_][\w:]*", ty):
            a = w.adts.get(path) or w.adts.get(key.split("::")[0] + "::" + path)
            k2 = a and a.get("key")
            if k2 and k2.split("::")[0].startswith("lindera"):
                r = cell_in(w, k2, seen)
                if r:
                    return r
    return None


def unsafe_sites(w):
    for k, f in cs.workspace_fns(w):
        if "build_script" in k:
            continue
        for b, t, p, d in cs.calls(f):
            if d and d.get("unsafe") and "fmt::Arguments" not in p and "fmt::rt" not in p:
                yield k, p
        if not f.d.get("unsafe_block") and not f.d.get("unsafe"):
            continue  # the compiler's own expansion of boxes and macros
        for bi, b in enumerate(f.blocks):
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s[0] != "=":
                    continue
                for kind, p in list(cs.operands(s[2])) + [("w", s[1])]:
                    if str(f.locals[p[0]].get("ty")).startswith("*") and len(p) > 1:
                        yield k, "dereference of %s" % f.locals[p[0]]["ty"]
    for i in w.items:
        if i.get("kind") == "Static" and i.get("mutable"):
            yield i["key"], "mutable static"
    for i in w.impls:
        if i.get("unsafe") and str(i.get("trait")).split("::")[-1] not in ("TrivialClone",):
            yield i["key"], "unsafe impl %s for %s" % (i.get("trait"), i.get("self"))


def callers(w, k):
    return sorted({k2.split("::{closure")[0] for k2, f in cs.workspace_fns(w) for b, t, p, d in cs.calls(f)
                   if d and k in (d.get("key"), (d.get("res") or {}).get("key"))})


def valid(c, k, deep=0):
    w = c.w()
    if w.fns[k].locals[0].get("ty") not in ("char", "u32"):
        raise Undecided("%s does not return a character" % k)
    try:
        m = of_one_character(uncast(c.analyse(k).ret))
    except NoCharacter as ex:
        raise Undecided("%s is no function of one character: %s" % (k, ex))
    bad = sorted(x for x, y in m.items() if not any(a <= y <= b for a, b in VALID))
    if not bad:
        return "%d characters changed, all to valid ones" % len(m)
    up = callers(w, k)
    if not w.fns[k].d.get("pub") and up and deep < 4:
        # a helper: what counts is what its callers let through
        try:
            return "; ".join(valid(c, u, deep + 1) for u in up)
        except Undecided:
            pass
    raise Violated("%s makes an invalid character of U+%04X" % (k, bad[0]))


def check(c):
    w = c.w()
    for i in roots(c):
        def shared(i=i):
            require(i.get("send") is True, "%s cannot be sent to another thread" % i["key"])
            require(i.get("sync") is True, "%s cannot be shared between threads" % i["key"])
            cell = cell_in(w, i["key"], set())
            require(cell is None, "interior mutability in %s: %s" % (i["key"], cell))
            return "Send, Sync, no cells"
        c.ob("shared: %s" % i["key"].split("::")[-1], shared)
    c.floor("types queried", len(roots(c)), 20)
    sites = sorted(set(unsafe_sites(w)))
    c.counts["unchecked operations"] = len(sites)
    for k, what in sites:
        def unchecked(k=k, what=what):
            require("from_u32_unchecked" in what, "%s: %s" % (k, what))
            return valid(c, k.split("::{closure")[0])
        c.ob("unchecked: %s" % k, unchecked)
