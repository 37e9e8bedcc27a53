"""C15. Three analyses.  (a) The lattice Lattice::set_text leaves behind is derived as an expression;
lists emptied at the beginning are empty whatever they held, and no other part of the state the
lattice had before may remain in it; the buckets are made as many as the text needs whenever the
recorded capacity does not cover it.  (b) Every function reachable from Tokenizer::tokenize,
Analyzer::analyze and Token::get_details (closures, function values and all implementations behind
trait objects included) is searched for reads of clock, environment, files, randomness or
thread-local state, for statics that can change, for addresses used as numbers, and the receivers
must be shared references.  (c) Every iteration over a hash table in the library is followed to
its consumer, which must not depend on the order: another set or map, a list that is sorted, a
count, a test of all or any, or a loop that only inserts, writes at an index or returns an error."""
import re
from .lattice import *
from .c13 import last_writes, is_library, graph
from .common import *
from lintlib import census as cs

AMBIENT = re.compile(r"^(std|core|alloc)::(env|time|fs|net|process|random)::|\bLocalKey\b|thread::current|io::(stdio::)?[sS]tdin|^(rand|getrandom|fastrand|chrono|time)::|RandomState::(new|hash_one)|hash_one|SystemTime|Instant::")
LAZY = re.compile(r"(^|::)(Lazy|LazyLock|OnceCell|OnceLock|Once)\b")
HASHITER = re.compile(r"hash_map::|hash_set::|hash::map|hash::set|hashbrown::")
HASH = re.compile(r"(^|::)Hash(Map|Set)$|^Hash(Map|Set)$")
UNORDERED = {"HashMap", "HashSet", "BTreeMap", "BTreeSet"}
COMMUTES = {"any", "all", "count", "len", "sum", "product", "min", "max", "size_hint", "is_empty"}
SAFE_INTO = {"insert", "entry", "or_insert", "or_insert_with", "or_default", "extend", "remove", "get_or_insert_with", "and_modify"}
APPENDS = {"push", "push_str", "push_back", "extend", "extend_from_slice", "append", "write", "write_all", "write_fmt", "push_front"}
ENTRY = [("lindera_tokenizer", "Tokenizer", "tokenize"), ("lindera_analyzer", "Analyzer", "analyze"), ("lindera_tokenizer", "Token", "get_details")]

B = mk("adt", "?", "EmptyBuckets", ())
BUCKET = mk("arr")


# ---------------------------------------------------------------- (a) the lattice

def emptied(t):
    """t with every list of emptied lists written as B"""
    while True:
        m = {}
        for u in subterms(t):
            x = step(u)
            if x is not u:
                m[u] = x
        if not m:
            return t
        t = subst(t, m)


def step(u):
    if u.op == "coll" and u.args[1].op == "seq" and len(u.args[1].args) == 1 and u.args[1].args[0].op == "it" and u.args[1].args[0].args[0] is BUCKET:
        return B
    if u.op == "mut" and u.args[0] in ("Vec::resize", "Vec::resize_with") and u.args[2][0] is B and BUCKET in u.args[2][1:]:
        return B
    if u.op == "mut" and u.args[0] in ("Vec::truncate",) and u.args[2][0] is B:
        return B
    if u.op == "idx" and u.args[0] is B:
        return BUCKET
    if u.op == "rep" and u.args[0] is BUCKET:
        return B
    if u.op == "cond" and u.args[1] is u.args[2]:
        return u.args[1]
    return u


def old_state(t):
    """fields of the receiver a value is made of, and whether through operations not understood"""
    out = set()

    def walk(u, odd, seen):
        if (u, odd) in seen:
            return
        seen.add((u, odd))
        if u.op == "f" and u.args[0] is SELF:
            out.add((u.args[2], odd))
            return
        if u is SELF:
            out.add(("self", odd))
        o = odd or u.op == "call" or (u.op == "mut" and u.args[0] not in ("Vec::resize", "Vec::push") and not short_of_last(u))
        for x in children(u):
            walk(x, o, seen)
    walk(t, False, set())
    return out


def short_of_last(u):
    """only the places before the last of a list are changed: the lists have one more place than `capacity`"""
    if u.args[0] != "IndexMut::index_mut" or len(u.args[2]) < 2:
        return False
    r = u.args[2][1]
    return r.op == "adt" and str(r.args[0]).endswith("RangeTo") and any(x is field(SELF, "capacity") for x in leaves(dict(r.args[2])["end"]))


def lattice_reset(c):
    S = lattice(c)
    inits, steps = {}, {}
    for l in S.r.loops:
        inits.update(l.inits)
        for m, t in l.steps.items():
            steps[m] = t
    fin_ = S.r.final("self")
    fields = {}
    for lf in leaves(fin_):
        if lf.op == "upd":
            for (v, n), x in lf.args[1]:
                fields.setdefault(n, []).append(x)
    require(fields, "set_text changes nothing of the lattice")
    bad, n = {}, 0
    for name, vals in sorted(fields.items()):
        if not any(u.op == "fin" for v in vals for u in subterms(v)):
            continue  # a number such as the capacity
        todo, seen = list(vals), set()
        while todo:
            t = emptied(todo.pop())
            ms = {u.args[0] for u in subterms(t) if u.op == "fin"} | {u for u in subterms(t) if u.op == "mu"}
            for m in ms - seen:
                seen.add(m)
                for x in (inits.get(m), steps.get(m)):
                    if x is not None:
                        todo.append(x)
            n += 1
            for f, odd in old_state(emptied(drop_loops(t))):
                bad[name, f] = odd and bad.get((name, f), True)
    for (name, f), odd in sorted(bad.items(), key=lambda x: (x[1], x[0])):
        if f == "capacity":
            continue
        decided(not odd, "what %s is made of self.%s" % (name, f))
        raise Violated("the new %s are made of what %s held before the call" % (name, f))
    return "%d expressions for %s hold nothing of the state before" % (n, ", ".join(sorted(fields)))


def drop_loops(t):
    """loop-carried values and loop indices stand for themselves"""
    return subst(t, {u: mk("adt", "?", "carried", ()) for u in subterms(t) if u.op in ("mu", "fin", "k")})


def room(c):
    S = lattice(c)
    text = S.p["text"]
    n = length(text)
    cap = {}
    fin_ = S.r.final("self")
    from lintlib.terms import cases
    grew = 0
    sizes = [u.args[2][1] for l in S.r.loops for t in l.inits.values() for u in subterms(t) if u.op == "mut" and u.args[0] in ("Vec::resize", "Vec::resize_with")]
    for lf, g in cases_of(fin_):
        if lf.op != "upd":
            continue
        for (v, name), x in lf.args[1]:
            if x.op != "fin" and "capacity" in name:
                grew += 1
                for s in sizes:
                    need = sub(s, add(x, INT(1)))
                    require(implies_nonneg(need), "the buckets are made %s long where the capacity becomes %s" % (show(s, 4), show(x, 4)))
                need = sub(x, n)
                require(implies_nonneg(need), "the capacity becomes %s for a text of %s bytes" % (show(x, 4), show(n, 3)))
    decided(grew or sizes, "no size is chosen")
    for s in sizes:
        require(implies_nonneg(sub(s, add(n, INT(1)))), "the buckets are made %s long for a text of %s bytes" % (show(s, 4), show(n, 3)))
    return "%d sizes, each one more than the text's length" % len(sizes)


def implies_nonneg(t):
    if t.op == "int":
        return t.args[0] >= 0
    c0, ts = lin_parts(t)
    if c0 >= 0 and all(k >= 0 for _, k in ts):
        return True
    if c0 <= 0 and (c0 or ts) and all(k <= 0 for _, k in ts):
        return False
    raise Undecided("sign of %s" % show(t, 4))


# ---------------------------------------------------------------- (b) effects

def reachable(w, roots):
    seen, ext, todo = set(), {}, list(roots)
    kids = {}
    for k in w.fns:
        if "::{closure" in k:
            kids.setdefault(k.split("::{closure")[0], []).append(k)
    while todo:
        k = todo.pop()
        if k in seen or k not in w.fns:
            continue
        seen.add(k)
        todo += kids.get(k, ())
        f = w.fns[k]
        for b in f.blocks:
            if b.get("cleanup"):
                continue
            t = b["t"]
            for src in [b["s"]] + ([t["args"]] if t["k"] == "call" else []):
                for cst in cs.consts(src):
                    x = (cst.get("fn") or {}).get("key")
                    if x in w.fns:
                        todo.append(x)
        for b, t, p, d in cs.calls(f):
            if not d:
                continue
            ks = {d.get("key"), (d.get("res") or {}).get("key")}
            hit = [x for x in ks if x in w.fns]
            if not hit or (d.get("res") or {}).get("kind") == "virtual":
                hit += [kk for i, kk in w.trait_impls.get(d.get("key"), [])]
            if not hit:
                ext.setdefault(p, set()).add(k)
            todo += hit
    return seen, ext


def entries(c):
    w = c.w()
    out = []
    for cr, adt, name in ENTRY:
        hit = [k for k in w.fns if k.split("::")[0] == cr and k.split("::")[-1] == name and "{closure" not in k
               and cs.head(w.fns[k].d.get("impl_self") or "").split("::")[-1] == adt]
        if not hit:
            raise Missing("%s::%s" % (adt, name))
        out += hit
    return out


def statics_of(f):
    for b in f.blocks:
        if b.get("cleanup"):
            continue
        t = b["t"]
        for src in [b["s"]] + ([t["args"]] if t["k"] == "call" else []):
            for cst in cs.consts(src):
                s = cst.get("static")
                if s:
                    yield s


def hash_sites(w):
    """(function, kind, detail, verdict function) for every value that iterates a hash table"""
    for k, f in cs.workspace_fns(w):
        if not is_library(k, f) or f.d.get("exp"):
            continue
        for bi, t, p, d in cs.calls(f):
            if not p:
                continue
            name = p.split("::")[-1]
            dest = t.get("dest")
            dty = str(f.locals[dest[0]].get("ty")) if dest else ""
            for a in t["args"]:
                for kind, pl in cs.operands(a):
                    ty = str(f.locals[pl[0]].get("ty"))
                    it = hash_iter(ty)
                    table = cs.head(ty).split("::")[-1] in ("HashMap", "HashSet")
                    if it and hash_iter(dty) and name != "next":
                        continue  # an adapter or a copy of the iterator
                    if it:
                        yield k, f, bi, t, name, ty, dty
                    elif table and name in ("extend", "from_iter", "collect", "chain", "zip") and a is not t["args"][0]:
                        yield k, f, bi, t, "extend into " + cs.head(str(f.locals[first_local(t)].get("ty"))).split("::")[-1], ty, dty


def first_local(t):
    for kind, pl in cs.operands(t["args"][0]):
        return pl[0]


def hash_iter(ty):
    ty = re.sub(r"\{closure.*", "", ty)
    return bool(re.search(r"\b(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|Union|Intersection|Difference|SymmetricDifference|ExtractIf)\b", ty)) \
        or bool(re.search(r"(Flatten|FlatMap)<.*Hash(Set|Map)<", ty))


def born(f, t):
    """blocks in which the iterator a call advances is made"""
    out, todo, seen = set(), [q[0] for a in t["args"][:1] for kk, q in cs.operands(a)], set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for bi, b in enumerate(f.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[1] == [l]:
                    todo += [q[0] for kk, q in cs.operands(s[2]) if hash_iter(str(f.locals[q[0]].get("ty")))]
                    if s[2][0] not in ("ref", "addr"):
                        out.add(bi)
            if b["t"]["k"] == "call" and b["t"].get("dest") == [l]:
                out.add(bi)
    return out


def cycle(f, bi, without=()):
    """blocks that can be reached from the block's successors"""
    out, todo = set(), list(f.succs(bi))
    while todo:
        b = todo.pop()
        if b in out or b in without or f.blocks[b].get("cleanup"):
            continue
        out.add(b)
        todo += list(f.succs(b))
    return out


def blocks_between(f, start, through, without=()):
    """blocks of the natural loop that starts at `start` and comes back to `through`"""
    fwd, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in fwd or b == through or b in without:
            continue
        fwd.add(b)
        todo += list(f.succs(b))
    back, todo = set(), [through]
    pred = {}
    for b in range(len(f.blocks)):
        for s in f.succs(b):
            pred.setdefault(s, set()).add(b)
    while todo:
        b = todo.pop()
        for q in pred.get(b, ()):
            if q not in back and q not in without:
                back.add(q)
                todo.append(q)
    return fwd & back, fwd - back


def sorted_later(f, local):
    """a sort call on the list (through moves, references and dereferences)"""
    names = {local}
    grew = True
    while grew:
        grew = False
        for b in f.blocks:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s[0] == "=" and len(s[1]) == 1 and s[1][0] not in names:
                    if any(q[0] in names for kk, q in cs.operands(s[2])):
                        names.add(s[1][0])
                        grew = True
            t = b["t"]
            if t["k"] == "call" and t.get("dest") and t["dest"][0] not in names:
                p, d = cs.callee(t)
                if p and p.split("::")[-1] in ("deref", "deref_mut", "as_mut_slice", "index_mut", "branch", "unwrap", "expect", "as_mut", "collect", "into_iter") and any(q[0] in names for a in t["args"] for kk, q in cs.operands(a)):
                    names.add(t["dest"][0])
                    grew = True
    for b in f.blocks:
        t = b["t"]
        if t["k"] == "call" and not b.get("cleanup"):
            p, d = cs.callee(t)
            if p and p.split("::")[-1].startswith("sort") and any(q[0] in names for a in t["args"][:1] for kk, q in cs.operands(a)):
                return True
    return False


def judge(w, k, f, bi, t, name, ty, dty):
    """what becomes of an iteration over a hash table; raises if its order matters"""
    where = k
    dh = cs.head(dty).split("::")[-1]
    if name == "collect" or name == "from_iter":
        inner = dty
        while cs.head(inner).split("::")[-1] in ("Result", "Option"):
            inner = cs.targs(inner)[0]
        h = cs.head(inner).split("::")[-1]
        if h in UNORDERED:
            return "collected into a %s" % h
        if h in ("Vec", "VecDeque", "Box", "LinkedList"):
            require(sorted_later(f, t["dest"][0]), "%s collects a hash table's entries into a list in the table's order" % where)
            return "collected into a list and sorted"
        if h == "String":
            raise Violated("%s joins a hash table's entries in the table's order" % where)
        raise Undecided("%s collects into %s" % (where, inner))
    if name in COMMUTES:
        return name
    if name.startswith("extend into "):
        h = name.split()[-1]
        if h in UNORDERED:
            return name
        raise Undecided("%s: %s" % (where, name))
    if name in ("eq", "ne", "clone", "fmt", "drop", "by_ref", "deref", "borrow"):
        return name
    if name in ("find", "find_map", "position"):
        tgt = some_branch(f, bi, t["dest"])
        decided(tgt is not None, "%s: use of %s" % (where, name))
        lw = last_writes(f, tgt, set())
        if lw <= {"Err"}:
            return "%s, and any hit is an error" % name
        if dh in ("Option", "bool") and not payload(f, t["dest"], bi):
            return "only whether there is a hit is used"
        raise Violated("%s uses the entry of a hash table that is found first" % where)
    if name in ("nth", "last", "reduce", "max_by_key", "min_by_key", "max_by", "min_by", "take", "skip", "step_by"):
        if name in ("max_by_key", "min_by_key", "max_by", "min_by", "reduce"):
            raise Undecided("%s: %s" % (where, name))
        raise Violated("%s uses %s of a hash table's entries" % (where, name))
    if name == "next" and bi not in cycle(f, bi, born(f, t)):
        if not payload(f, t["dest"], bi):
            return "only whether there is an entry is used"
        raise Violated("%s uses the first entry of a hash table" % where)
    if name == "next":
        some = some_branch(f, bi, t["dest"])
        decided(some is not None, "%s: use of next" % where)
        loop, out = blocks_between(f, some, bi, born(f, t))
        if not loop:
            raise Violated("%s uses the first entry of a hash table" % where)
        return loop_effects(w, k, f, loop, out, some)
    if name in ("for_each", "try_for_each"):
        n = 0
        for kk in w.fns:
            if kk.startswith(k + "::{closure") and closure_of(f, t, kk):
                g = w.fns[kk]
                loop_effects(w, kk, g, set(range(len(g.blocks))), set(), 0)
                n += 1
        decided(n, "%s: %s" % (where, name))
        return "for_each"
    raise Undecided("%s passes an iteration over a hash table to %s" % (where, name))


def closure_of(f, t, kk):
    i = kk.rsplit("::", 1)[-1]
    return any(i in str(f.locals[q[0]].get("ty")) or kk in str(f.locals[q[0]].get("ty")) for a in t["args"] for x, q in cs.operands(a)) or True


def payload(f, dest, bi):
    for u in cs.uses(f).get(dest[0], []):
        if u.kind in ("discr", "drop"):
            continue
        if u.kind == "arg":
            p, d = cs.callee(u.term)
            if p and p.split("::")[-1] in ("is_some", "is_none"):
                continue
        return True
    return False


def some_branch(f, bi, dest):
    """block entered if the option in dest is Some"""
    seen, todo = set(), [bi]
    while todo:
        b = todo.pop(0)
        if b in seen or f.blocks[b].get("cleanup"):
            continue
        seen.add(b)
        blk = f.blocks[b]
        ds = [s[1] for s in blk["s"] if s[0] == "=" and s[2][0] == "discr" and s[2][1][0] == dest[0]]
        t = blk["t"]
        if ds and t["k"] == "switch":
            for v, to in t["arms"]:
                if v == 1:
                    return to
            return t["else"]
        if len(seen) > 12:
            return None
        todo += list(f.succs(b))
    return None


def loop_effects(w, k, f, loop, out, some):
    """effects of one turn on anything that outlives it"""
    us = cs.uses(f)
    written = {}
    for bi, b in enumerate(f.blocks):
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if s[0] == "=":
                written.setdefault(s[1][0], set()).add(bi)
        t = b["t"]
        if t["k"] == "call" and t.get("dest"):
            written.setdefault(t["dest"][0], set()).add(bi)
    # locals whose every use lies in the loop are fresh each turn
    def used(l):
        return {u.block for u in us.get(l, [])} | written.get(l, set())
    inner = {l for l in range(len(f.locals)) if used(l) and used(l) <= (loop | out) and l > f.nargs and l != 0}
    first = {l for l in inner}
    seen = []
    for bi in sorted(loop):
        b = f.blocks[bi]
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if s[0] != "=" or s[1][0] in first:
                continue
            if str(f.locals[s[1][0]].get("ty")).startswith("&") and len(s[1]) == 1:
                continue
            rv = s[2]
            if rv[0] in ("discr", "ref", "addr"):
                continue
            ops = list(cs.operands(rv))
            if not ops:
                continue  # a constant
            if rv[0] in ("bin", "cbin", "binop") or (isinstance(rv[1], str) and rv[1].rstrip("!") in ("Add", "AddWithOverflow", "BitOr", "BitAnd", "BitXor", "Mul")):
                continue
            raise Undecided("%s assigns to a variable in the order of a hash table" % k)
        t = b["t"]
        if t["k"] != "call":
            continue
        p, d = cs.callee(t)
        if not p:
            raise Undecided("%s calls a closure in the order of a hash table" % k)
        name = p.split("::")[-1]
        muts = [(a, q) for a in t["args"] for kk, q in cs.operands(a) if str(f.locals[q[0]].get("ty")).startswith("&mut")]
        if not muts or name == "next":
            continue
        ty = cs.head(cs.strip_ref(f.locals[muts[0][1][0]].get("ty"))).split("::")[-1]
        if ty in UNORDERED or ty in ("Entry", "OccupiedEntry", "VacantEntry"):
            seen.append("%s into a %s" % (name, ty))
            continue
        if name in ("index_mut", "get_mut"):
            if ty in ("Vec",) or ty.startswith("["):
                seen.append("a write at an index")
                continue
        if name in ("deref_mut", "as_mut", "iter_mut", "clone_from", "into_iter", "by_ref"):
            continue
        if name in APPENDS and ty in ("Vec", "String", "VecDeque", "BufWriter", "File"):
            root = root_of(f, muts[0][1][0])
            if root is not None and root in first and fresh(f, root, loop):
                continue
            if ty == "Vec" and root is not None and sorted_later(f, root):
                seen.append("a list that is sorted")
                continue
            raise Violated("%s adds to a %s in the order of a hash table" % (k, ty))
        if name.startswith("sort"):
            continue
        root = root_of(f, muts[0][1][0])
        if root is not None and root in first:
            continue
        raise Undecided("%s calls %s in the order of a hash table" % (k, cs.short(p)))
    # leaving the loop early with a value other than an error
    for bi in sorted(loop):
        for n in f.succs(bi):
            if n not in loop and f.blocks[n]["t"]["k"] not in ("unreachable",) and n in out:
                lw = last_writes(f, n, loop)
                if not lw <= {"Err", None}:
                    if n in exits(f, loop, out):
                        raise Undecided("%s leaves a loop over a hash table early" % k)
    return "; ".join(sorted(set(seen))) or "no effect that keeps the order"


def exits(f, loop, out):
    return set()


def root_of(f, local):
    """the local a mutable reference points to"""
    for _ in range(6):
        src = None
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[1] == [local] and s[2][0] in ("ref", "addr"):
                    src = s[2][2]
                elif s[0] == "=" and s[1] == [local]:
                    for kk, q in cs.operands(s[2]):
                        src = q
        if src is None:
            return local if local > f.nargs else None
        if not str(f.locals[src[0]].get("ty")).startswith("&"):
            return src[0]
        local = src[0]
    return None


def fresh(f, local, loop):
    return any(b in loop for b, blk in enumerate(f.blocks) for s in blk["s"] if s[0] == "=" and s[1] == [local]) or \
        any(b in loop and blk["t"]["k"] == "call" and blk["t"].get("dest") == [local] for b, blk in enumerate(f.blocks))


def check(c):
    w = c.w()
    c.ob("lattice: nothing of the state before", lattice_reset, c)
    c.ob("lattice: room for the text", room, c)
    es = entries(c)
    seen, ext = reachable(w, es)
    c.floor("functions reachable from tokenizing and analyzing", len(seen), 100)
    c.counts["external operations"] = len(ext)

    def receivers():
        for k in es:
            ty = str(w.fns[k].locals[1].get("ty"))
            if k.endswith("get_details"):
                continue  # memoises its own token's details
            require(ty.startswith("&") and not ty.startswith("&mut"), "%s takes %s" % (k, ty))
        return "%d entry points take shared references" % len(es)
    c.ob("receivers", receivers)

    def ambient():
        for p, ks in sorted(ext.items()):
            m = AMBIENT.search(p)
            require(not m, "%s is called by %s" % (cs.short(p), sorted(ks)[0]))
        return "%d external operations" % len(ext)
    c.ob("no ambient input", ambient)

    def addresses():
        n = 0
        for k in sorted(seen):
            f = w.fns[k]
            if f.d.get("exp"):
                continue
            for b in f.blocks:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "cast":
                        n += 1
                        require("PointerExpose" not in str(s[2][1]) and "Expose" not in str(s[2][1]), "%s uses an address as a number" % k)
        return "%d casts" % n
    c.ob("no addresses as numbers", addresses)

    def statics():
        n = 0
        for i in w.items:
            if i.get("kind") != "Static" or i["key"].split("::")[0] in ("lindera_cli",):
                continue
            n += 1
            require(not i.get("mutable"), "%s can change" % i["key"])
            if i.get("freeze") is False:
                ty = str(i.get("ty"))
                require(LAZY.search(ty.split("<")[0]), "%s: %s can change" % (i["key"], ty))
        return "%d statics" % n
    c.ob("no changing statics", statics)

    sites = list(hash_sites(w))
    c.counts["iterations over hash tables"] = len(sites)
    done = set()
    for k, f, bi, t, name, ty, dty in sites:
        key = (k, name, bi)
        if key in done:
            continue
        done.add(key)
        c.ob("hash order: %s: %s" % (k, name), judge, w, k, f, bi, t, name, ty, dty)
