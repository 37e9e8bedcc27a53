"""Interprocedural value numbering over MIR.

`Engine.run(key, args)` computes, without executing anything, the value a
function returns and what it does to its `&mut` arguments, as terms over its
parameters.  Control flow is merged at joins (no path enumeration); loops are
solved by finding the cells they modify and expressing one iteration's effect in
terms of the iteration's start; workspace callees are inlined; library callees
have models (models.py) or stay uninterpreted."""
import re
import sys
import time
from .terms import *
from . import terms as tm

_frame = [0]
_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


UNSIGNED = ("u8", "u16", "u32", "u64", "usize", "u128")

class Abort(Exception):
    pass


class Dead(Exception):
    """control does not continue past this point"""


class Fn:
    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.key = d["key"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.nargs = d["args"]
        self._cfg = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["to"]]
        if k == "call":
            return [t["to"]] if "to" in t else []
        if k == "switch":
            r = []
            for _, x in t["arms"]:
                if x not in r:
                    r.append(x)
            if t["else"] not in r:
                r.append(t["else"])
            return r
        return []

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


class Cfg:
    def __init__(self, fn):
        n = len(fn.blocks)
        self.succ = {}
        order = []
        seen = {0}
        st = [(0, iter(fn.succs(0)))]
        self.succ[0] = fn.succs(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    self.succ[s] = fn.succs(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        num = {b: i for i, b in enumerate(self.rpo)}
        self.num = num
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


class Panic:
    __slots__ = ("guard", "kind", "span", "fn", "detail", "loops")

    def __init__(self, guard, kind, span, fn, detail=None, loops=()):
        self.guard, self.kind, self.span, self.fn, self.detail, self.loops = guard, kind, span, fn, detail, loops

    def __repr__(self):
        return "Panic(%s %s %s if %s)" % (self.kind, self.span, self.detail, show(self.guard, 6))


class LoopInfo:
    def rewrite(self, f):
        """in terms of the iteration of an enclosing loop"""
        self.L = f(self.L)
        self.src = f(self.src) if self.src is not None else None
        self.inits = {f(m): f(v) for m, v in self.inits.items()}
        self.steps = {f(m): f(v) for m, v in self.steps.items()}
        self.fins = {f(m): f(v) for m, v in self.fins.items()}
        self.inmap = {f(m): f(v) for m, v in self.inmap.items()}
        self.cont = f(self.cont)
        self.brk = [f(x) for x in self.brk]


GEN = re.compile(r"<[^<>]*>")


def canon(path):
    """`std::vec::Vec::<T, A>::push` -> `Vec::push`"""
    p = path
    m = re.search(r"<impl ([^>]*?(?:<.*>)?)>::(\w+)$", p)
    if m:
        ty = m.group(1)
        ty = ty.replace("&", "").strip()
        if ty.startswith("["):
            ty = "slice"
        ty = GEN.sub("", ty)
        if " for " in ty:
            ty = ty.split(" for ")[1]
        return ty.split("::")[-1] + "::" + m.group(2)
    while "::<" in p:
        i = p.index("::<")
        d = 0
        for j in range(i + 2, len(p)):
            if p[j] == "<":
                d += 1
            elif p[j] == ">" and p[j - 1] != "-":
                d -= 1
                if d == 0:
                    break
        p = p[:i] + p[j + 1:]
    parts = p.split("::")
    return "::".join(parts[-2:])


def strip_refs(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("'"):
            t = t.split(" ", 1)[1] if " " in t else t
        if t.startswith("mut "):
            t = t[4:]
        t = t.strip()
    return t


INTR = {
    "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
    "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1), "char": (0, 0x10FFFF), "bool": (0, 1),
    "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
    "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1),
}


def fits(f, t):
    if f not in INTR or t not in INTR:
        return False
    a, b = INTR[f], INTR[t]
    return b[0] <= a[0] and a[1] <= b[1]


def cast(x, f, t):
    if f == "bool" and t in INTR:
        return ite(x, INT(1), INT(0))
    if fits(f, t):
        return x

    def g(u):
        if u.op == "int" and t in INTR:
            lo, hi = INTR[t]
            v = u.args[0]
            n = hi - lo + 1
            return INT((v - lo) % n + lo)
        return mk("cast", t, f, u)

    return hoisted(g, [x])


tm.REBUILD["cast"] = lambda t, f, x: cast(x, f, t)


class World:
    """the dumped program"""

    def __init__(self, dump_dir):
        import glob
        import json
        import os
        self.fns = {}
        self.impls = []
        self.items = []
        self.adts = {}
        self.crates = {}
        self.build_scripts = []
        names = sorted(glob.glob(os.path.join(dump_dir, "*.json")))
        for f in names:
            with open(f) as fh:
                d = json.load(fh)
            c = d["crate"]
            if c == "build_script_build":
                self.build_scripts.append(d)
                continue
            if c == "lindera" and "Executable" in d["crate_type"]:
                # the command line binary is its own crate of the same name as the facade
                c = "lindera_cli"
            if not d["fns"] and c in self.crates:
                continue
            if c in self.crates:
                old = self.crates[c]
                if len(json.dumps(d["cfg"])) < len(json.dumps(old["cfg"])):
                    continue
                elif len(d["fns"]) <= len(old["fns"]):
                    continue
            self.crates[c] = d
        # the facade crate only re-exports
        for c, d in self.crates.items():
            for fn in d["fns"]:
                self.fns[fn["key"]] = Fn(fn, c)
            for i in d["impls"]:
                i["crate"] = c
                self.impls.append(i)
            for i in d["items"]:
                i["crate"] = c
                self.items.append(i)
            for n, a in d["adts"].items():
                if a is None:
                    continue
                # paths are relative to the crate for its own types
                full = n if not a.get("local") else c + "::" + n
                self.adts.setdefault(n, a)
                self.adts.setdefault(full, a)
                self.adts.setdefault(a["key"], a)
        for n, a in self.adts.items():
            if a["kind"] == "enum":
                VARIANTS.setdefault(n, [v["name"] for v in a["variants"]])
                VARIANTS.setdefault(a["key"], [v["name"] for v in a["variants"]])
        self.trait_impls = {}
        for i in self.impls:
            if "trait" in i:
                for it in i["items"]:
                    if "trait_item" in it:
                        self.trait_impls.setdefault(it["trait_item"], []).append((i, it["key"]))

    def adt_key(self, path, crate):
        a = self.adts.get(crate + "::" + path) or self.adts.get(path)
        return a["key"] if a else path

    def alias_index(self):
        if not hasattr(self, "_alias"):
            self._alias = {}
            for k, f in self.fns.items():
                if "name" not in f.d:
                    continue
                if "impl_self" in f.d:
                    ty = strip_refs(f.d["impl_self"]).split("<")[0].split("::")[-1]
                    self._alias.setdefault(ty + "::" + f.d["name"], []).append(k)
                self._alias.setdefault(f.d["name"], []).append(k)
        return self._alias

    def find(self, suffix, crate=None, trait=None):
        """functions named `Type::method`, `function` or by key"""
        if suffix in self.fns:
            r = [suffix]
        else:
            r = list(self.alias_index().get(suffix, []))
            if not r and "::" in suffix:
                r = [k for k in self.fns if k.endswith("::" + suffix)]
        if trait is not None:
            r = [k for k in r if (self.fns[k].d.get("impl_trait") or "").split("::")[-1] == trait]
        if crate:
            r = [k for k in r if self.fns[k].crate == crate]
        return r


STDNAMES = {"core::": "std::", "alloc::": "std::"}


def without_generics(t):
    """the type's path: generic arguments dropped, qualifications by an impl kept"""
    if t.endswith(">"):
        d = 0
        for i in range(len(t) - 1, -1, -1):
            if t[i] == ">" and t[i - 1] not in "-=":
                d += 1
            elif t[i] == "<":
                d -= 1
                if d == 0:
                    break
        t = t[:i]
    if t.startswith("<") or "<impl " in t:
        return t.rstrip(":")
    i = t.find("<")
    return (t if i < 0 else t[:i]).rstrip(":")


def adt_name(path):
    for a, b in STDNAMES.items():
        if path.startswith(a):
            path = b + path[len(a):]
    return path


class Frame:
    def __init__(self, fn, eng):
        _frame[0] += 1
        self.id = _frame[0]
        self.fn = fn
        self.ret_edges = []


def REF(cell, path):
    return mk("ref", cell, path)


class Engine:
    def __init__(self, world, budget=60.0, inline=None, opaque=(), watch=None):
        self.w = world
        self.panics = []
        self.deadline = time.time() + budget
        self.depth = 0
        self.loopdepth = 0
        self.stack = []
        self.loops = {}
        self.loop_list = []
        self.constcache = {}
        self.opaque_calls = set()
        self.callsites = []
        self.no_inline = set(opaque)
        self.inline_pred = inline
        self.visited = set()
        self.watch = watch
        self.finals = []
        self.skipctx = []
        self.events = []
        self.quiet = 0
        from . import models
        self.models = models.MODELS

    # ------------------------------------------------------------ entry
    def run(self, key, args=None, state=None, assume=None):
        old = tm.ASSUME[0]
        tm.ASSUME[0] = assume
        try:
            return self._run(key, args, state)
        finally:
            tm.ASSUME[0] = old

    def _run(self, key, args, state):
        fn = self.w.fns[key]
        st = {} if state is None else dict(state)
        if args is None:
            args = []
            if key.startswith("lindera::"):
                st[("P", "stdout")] = tm.STR("")      # what the command prints
            for i in range(fn.nargs):
                lo = fn.locals[1 + i]
                n = lo.get("name") or "arg%d" % i
                ty = lo["ty"]
                tys = ty_s(ty)
                p = mk("par", n)
                if tys.startswith("&") and re.match(r"&('\w+ )?mut ", tys):
                    cell = ("P", n)
                    st[cell] = p
                    args.append(REF(cell, ()))
                else:
                    args.append(p)
        ret, st, g = self.call_fn(fn, args, st)
        self.final_state = st
        self.ret_guard = g
        return ret

    def final(self, name):
        return self.final_state.get(("P", name))

    # ------------------------------------------------------------ calls
    def call_fn(self, fn, args, state, self_ty=None):
        """-> (value, state, guard under which it returns)"""
        if time.time() > self.deadline:
            raise Abort("time budget exhausted in " + fn.key)
        if self.depth > 40:
            raise Abort("inlining too deep at " + fn.key)
        self.visited.add(fn.key)
        fr = Frame(fn, self)
        self.depth += 1
        self.stack.append(fn.key)
        try:
            st = dict(state)
            for i in range(fn.nargs):
                st[("L", fr.id, i + 1)] = args[i] if i < len(args) else UNDEF
            cfg = fn.cfg()
            self.skipctx.append(None)
            outs, _ = self.region(fr, 0, set(cfg.rpo), [(TRUE, st)], None)
            self.skipctx.pop()
            edges = fr.ret_edges
            if not edges:
                return UNDEF, state, FALSE
            g, st = self.merge(edges)
            ret = st.get(("L", fr.id, 0), UNIT)
            if self.watch:
                self.watch(self, fr, st, ret, g)
            for c in [c for c in st if c[0] == "L" and c[1] == fr.id]:
                del st[c]
            return ret, st, g
        finally:
            self.depth -= 1
            self.stack.pop()

    def merge(self, edges):
        edges = [(g, s) for g, s in edges if g is not FALSE]
        if not edges:
            return FALSE, {}
        if len(edges) == 1:
            return edges[0]
        G = FALSE
        for g, _ in edges:
            G = OR(G, g)
        keys = set()
        for _, s in edges:
            keys.update(s)
        st = {}
        for k in keys:
            vals = [(g, s.get(k)) for g, s in edges]
            vals = [(g, v) for g, v in vals if v is not None and v is not UNDEF]
            if not vals:
                continue
            v = vals[-1][1]
            if any(x is not v for _, x in vals):
                for g, x in vals[-2::-1]:
                    v = ite(g, x, v)
                care = G
                if len(vals) != len(edges):
                    care = FALSE
                    for g, _ in vals:
                        care = OR(care, g)
                v = restrict(v, care)
            st[k] = v
        return G, st

    # ------------------------------------------------------------ regions
    def region(self, fr, entry, blocks, instates, header):
        """run the blocks once in topological order.
        -> (edges leaving the region [(target, guard, state)], back edges)"""
        fn = fr.fn
        cfg = fn.cfg()
        pending = {entry: list(instates)}
        out, back = [], []
        for b in [x for x in cfg.rpo if x in blocks]:
            if b not in pending:
                continue
            g, st = self.merge(pending.pop(b))
            if g is FALSE:
                continue
            if b in cfg.loops and b != header:
                body = cfg.loops[b]
                edges = self.loop(fr, b, body, g, st)
            else:
                edges = self.block(fr, b, g, st)
            for (t, eg, es) in edges:
                if eg is FALSE:
                    continue
                if header is not None and t == header:
                    back.append((eg, es))
                elif t in blocks:
                    pending.setdefault(t, []).append((eg, es))
                else:
                    out.append((t, eg, es))
        return out, back

    # ------------------------------------------------------------ places
    def read(self, cell, path, state):
        v = state.get(cell)
        if v is None:
            if cell[0] == "D":
                v = cell[1]
            else:
                return UNDEF
        return project(v, path)

    def write(self, cell, path, val, state):
        if not path:
            state[cell] = val
            return
        v = state.get(cell)
        if v is None:
            v = cell[1] if cell[0] == "D" else UNDEF
        state[cell] = store(v, path, val)

    def lvalue(self, fr, pl, state):
        """-> list of (guard, cell, path)"""
        cands = [(TRUE, ("L", fr.id, pl[0]), ())]
        var = None
        for e in pl[1:]:
            k = e[0]
            new = []
            for g, cell, path in cands:
                if k == "*":
                    v = self.read(cell, path, state)
                    if v.op == "ref":
                        new.append((g, v.args[0], v.args[1]))
                    elif v.op == "cond":
                        for p, leaf in cases(v, 32):
                            gg = g
                            for a, s in p:
                                gg = AND(gg, as_bool(a) if s else NOT(as_bool(a)))
                            if gg is FALSE:
                                continue
                            if leaf.op == "ref":
                                new.append((gg, leaf.args[0], leaf.args[1]))
                            else:
                                new.append((gg, ("D", leaf), ()))
                    else:
                        new.append((g, ("D", v), ()))
                elif k == "f" and cell[0] == "H" and e[2] == "value":
                    new.append((g, cell, path))  # inside MaybeUninit
                elif k == "f":
                    name = e[2]
                    new.append((g, cell, path + (("f", var, name),)))
                elif k == "v":
                    new.append((g, cell, path))
                elif k == "i":
                    i = self.read(("L", fr.id, e[1]), (), state)
                    new.append((g, cell, path + (("i", i),)))
                elif k == "ci":
                    if e[2]:
                        n = length(self.read(cell, path, state))
                        i = sub(n, INT(e[1]))
                    else:
                        i = INT(e[1])
                    new.append((g, cell, path + (("i", i),)))
                elif k == "ss":
                    v = self.read(cell, path, state)
                    end = sub(length(v), INT(e[2])) if e[3] else INT(e[2])
                    new.append((g, ("D", slice_(v, INT(e[1]), end)), ()))
                else:
                    new.append((g, ("D", mk("opaque", uid())), ()))
            var = e[2] if k == "v" else None
            cands = new
        return cands

    def read_place(self, fr, pl, state):
        c = self.lvalue(fr, pl, state)
        v = self.read(c[-1][1], c[-1][2], state)
        for g, cell, path in c[-2::-1]:
            v = ite(g, self.read(cell, path, state), v)
        return v

    def write_place(self, fr, pl, val, state):
        c = self.lvalue(fr, pl, state)
        if len(c) == 1:
            self.write(c[0][1], c[0][2], val, state)
        else:
            for g, cell, path in c:
                old = self.read(cell, path, state)
                self.write(cell, path, ite(g, val, old), state)

    def get(self, ref, state):
        """value behind a reference (or the value itself)"""
        def f(r):
            if r.op == "ref":
                return self.get(self.read(r.args[0], r.args[1], state), state)
            return r
        if ref.op == "cond":
            return maptree(ref, f)
        return f(ref)

    def put(self, ref, val, state):
        if ref.op == "ref":
            cur = self.read(ref.args[0], ref.args[1], state)
            if cur.op == "ref":
                return self.put(cur, val, state)
            self.write(ref.args[0], ref.args[1], val, state)
        elif ref.op == "cond":
            for p, leaf in cases(ref, 32):
                gg = TRUE
                for a, s in p:
                    gg = AND(gg, as_bool(a) if s else NOT(as_bool(a)))
                if leaf.op == "ref":
                    old = self.get(leaf, state)
                    self.put(leaf, ite(gg, val, old), state)

    def deep(self, t, state, memo=None):
        """replace references inside a value by what they point to"""
        if memo is None:
            memo = {}
        if t in memo:
            return memo[t]
        r = t
        if t.op == "ref":
            memo[t] = t
            r = self.deep(self.read(t.args[0], t.args[1], state), state, memo)
        elif t.op in ("adt", "tup", "clo", "arr", "cond", "upd", "app", "item", "desc") and has_ref(t):
            def go(a):
                if isT(a):
                    return self.deep(a, state, memo)
                if isinstance(a, tuple):
                    return tuple(go(x) for x in a)
                return a
            r = rebuild(t.op, tuple(go(a) for a in t.args))
        memo[t] = r
        return r

    # ------------------------------------------------------------ operands
    def operand(self, fr, op, state):
        if op[0] == "k":
            return self.constant(op[1], state)
        v = self.read_place(fr, op[1], state)
        if op[0] == "m" and len(op[1]) == 1 and self.watch:
            ty = ty_s(fr.fn.locals[op[1][0]]["ty"])
            if "Writer" in ty or "File" in ty or "Encoder" in ty:
                state[("L", fr.id, op[1][0])] = UNDEF
        return v

    def constant(self, c, state):
        ty = ty_s(c.get("ty", ""))
        if "fn" in c:
            return mk("fn", FnRef.of(c["fn"]))
        if "int" in c:
            return INT(c["int"])
        if "bool" in c:
            return bconst(c["bool"])
        if "str" in c:
            return STR(c["str"])
        if "promoted" in c:
            r = self.const_fn(c["promoted"])
            if r is not None:
                return r
        if "static" in c:
            return mk("static", c["static"])
        if "incl" in c:
            return mk("file", "".join(re.findall(r'"((?:[^"\\\\]|\\\\.)*)"', re.sub(r'\b(?:option_)?env!\s*\(\s*"([^"]*)"\s*\)', r'"<\1>"', c["incl"]))))
        if "named" in c and "bhash" in c:
            r = self.const_fn(c["named"])
            if r is not None and r.op == "file":
                return r
        if "bhash" in c:
            if "bytes" in c and c.get("blen", 0) <= 4096:
                return mk("cst", "bytes", bytes(c["bytes"]))
            return mk("cst", "bytes#", str(c["bhash"]), c.get("blen"))
        if "named" in c:
            r = self.const_fn(c["named"])
            if r is not None:
                return r
            return mk("cst", "named", c["named"])
        if c.get("zst"):
            if ty == "()":
                return UNIT
            return mk("cst", "zst", ty)
        return mk("cst", "text", c.get("text", str(c.get("opaque"))), ty)

    def const_fn(self, key):
        if key in self.constcache:
            return self.constcache[key]
        fn = self.w.fns.get(key)
        if fn is None:
            return None
        self.constcache[key] = None
        try:
            v, st, g = self.call_fn(fn, [], {})
        except Abort:
            raise
        self.constcache[key] = v
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, state):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1], state)
        if k == "ref":
            if rv[1] == "shared":
                return self.read_place(fr, rv[2], state)
            c = self.lvalue(fr, rv[2], state)
            v = REF(c[-1][1], c[-1][2])
            for g, cell, path in c[-2::-1]:
                v = ite(g, REF(cell, path), v)
            return v
        if k == "cast":
            kind = rv[1]
            src = rv[2]
            if "BoxDeref" in kind and src[0] != "k":
                # a box is represented by what it holds
                pl = list(src[1])
                while len(pl) > 1 and pl[-1][0] == "f":
                    pl.pop()
                return self.read_place(fr, pl, state)
            x = self.operand(fr, src, state)
            if "IntToInt" in kind:
                return cast(self.get(x, state), ty_s(rv[4]), ty_s(rv[3]))
            if kind.startswith("PointerCoercion") or "Ptr" in kind or "Transmute" in kind or "Subtype" in kind:
                return x
            return pure("cast " + kind + " " + ty_s(rv[3]), x)
        if k == "bin":
            a = self.get(self.operand(fr, rv[2], state), state)
            b = self.get(self.operand(fr, rv[3], state), state)
            return binop(rv[1], a, b, rv[4])
        if k == "un":
            a = self.get(self.operand(fr, rv[2], state), state)
            if rv[1] == "Not":
                if a is TRUE or a is FALSE or is_boolish(a):
                    return NOT(a)
                return pure("un Not", a)
            if rv[1] == "Neg":
                return mulc(a, -1)
            if rv[1] == "PtrMetadata":
                return length(a)
            return pure("un " + rv[1], a)
        if k == "discr":
            x = self.get(self.read_place(fr, rv[1], state), state)
            return mk("discr", x, self.enum_of(ty_s(rv[2]), fr.fn.crate))
        if k == "agg":
            o = rv[1]
            vals = [self.operand(fr, x, state) for x in rv[2]]
            if o["k"] == "tuple":
                return mk("tup", *vals) if vals else UNIT
            if o["k"] == "array":
                return mk("arr", *vals)
            if o["k"] == "adt":
                name = self.enum_of(o["path"], fr.fn.crate)
                if name.endswith("::Box") or name.endswith("NonNull") or name.endswith("Unique"):
                    return vals[0]
                fs = o["fields"]
                return mk("adt", name, o["variant"] if o["enum"] else None, tuple(zip(fs, vals)))
            if o["k"] == "closure":
                return mk("clo", o["key"], tuple(vals))
            return mk("cst", "agg", o.get("text", ""))
        if k == "repeat":
            x = self.operand(fr, rv[1], state)
            try:
                n = int(re.sub(r"_?usize$", "", rv[2]))
                if n <= 16:
                    return mk("arr", *([x] * n))
                return mk("rep", x, INT(n))
            except ValueError:
                return mk("rep", x, mk("cst", "text", rv[2]))
        return mk("opaque", uid())

    def enum_of(self, ty, crate):
        t = strip_refs(ty)
        base = adt_name(without_generics(t))
        if base.startswith("std::"):
            return base
        return self.w.adt_key(base, crate)

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, g, st):
        blk = fr.fn.blocks[b]
        st = dict(st)
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, s[2], st)
                if s[2][0] == "bin" and s[2][1] == "Sub" and s[2][4] in UNSIGNED:
                    self.below_zero(fr, s[2], st, g)
                self.write_place(fr, s[1], v, st)
            elif s[0] == "setdiscr":
                self.write_place(fr, s[1], mk("opaque", uid()), st)
        t = blk["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            return [(t["to"], g, st)]
        if k == "return":
            fr.ret_edges.append((g, st))
            return []
        if k == "unreachable" or k == "other":
            return []
        if k == "assert":
            c = as_bool(self.get(self.operand(fr, t["cond"], st), st))
            if not t["expected"]:
                c = NOT(c)
            c = restrict(c, g)
            bad = AND(g, NOT(c))
            if bad is not FALSE:
                det = None
                if "len" in t:
                    det = (self.operand(fr, t["len"], st), self.operand(fr, t["index"], st))
                self.panic(bad, t["msg"], t.get("span"), fr.fn.key, det)
            return [(t["to"], AND(g, c), st)]
        if k == "switch":
            v = self.get(self.operand(fr, t["on"], st), st)
            v = restrict(v, g)
            edges = []
            rest = g
            if t["ty"] == "bool":
                c = as_bool(v)
                for val, to in t["arms"]:
                    cc = NOT(c) if val == 0 else c
                    edges.append((to, AND(rest, cc), st))
                    rest = AND(rest, NOT(cc))
            elif v.op == "discr":
                x, en = v.args
                vs = VARIANTS.get(en)
                for val, to in t["arms"]:
                    if vs is None or val >= len(vs):
                        # explicit discriminants
                        a = self.w.adts.get(en)
                        name = None
                        if a:
                            for vv in a["variants"]:
                                if vv.get("discr") == val:
                                    name = vv["name"]
                        name = name or "#%d" % val
                    else:
                        name = self.variant_by_discr(en, val)
                    cc = isv(x, en, name)
                    edges.append((to, AND(rest, cc), st))
                    rest = AND(rest, NOT(cc))
                if vs and len(t["arms"]) >= len(vs):
                    rest = FALSE
                if t["ty"] and vs:
                    rest = self.exhaust(rest, x, en, vs, [self.variant_by_discr(en, v2) for v2, _ in t["arms"]])
            else:
                for val, to in t["arms"]:
                    cc = eq(v, INT(val))
                    edges.append((to, AND(rest, cc), st))
                    rest = AND(rest, NOT(cc))
            edges.append((t["else"], rest, st))
            return edges
        if k == "call":
            return self.do_call(fr, t, g, st)
        return []

    def exhaust(self, rest, x, en, vs, armed):
        if rest is FALSE:
            return rest
        left = [v for v in vs if v not in armed]
        if not left:
            return FALSE
        return rest

    def variant_by_discr(self, en, val):
        a = self.w.adts.get(en)
        if a:
            for v in a["variants"]:
                if v.get("discr") == val:
                    return v["name"]
        vs = VARIANTS.get(en)
        if vs and 0 <= val < len(vs):
            return vs[val]
        return "#%d" % val

    def below_zero(self, fr, rv, st, g):
        """an unsigned subtraction whose result is negative"""
        a, b = (self.get(self.operand(fr, x, st), st) for x in rv[2:4])
        bad = AND(g, pos(sub(b, a)))
        if bad is not FALSE:
            self.panic(bad, "event:underflow", None, fr.fn.key, (a, b))

    def panic(self, guard, kind, span, fn, detail=None):
        if self.quiet:
            return
        self.panics.append(Panic(guard, kind, span, fn, detail))

    # ------------------------------------------------------------ calls
    def do_call(self, fr, t, g, st):
        f = t["f"]
        args = [self.operand(fr, a, st) for a in t["args"]]
        callee = self.operand(fr, f, st)
        ctx = Ctx(self, fr, t, g, st)
        mark = len(self.panics)
        try:
            ret = self.apply(callee, args, st, ctx)
        except Dead:
            self.lift_panics(mark, g)
            return []
        self.lift_panics(mark, g)
        if ctx.guard is not TRUE:
            g = AND(g, ctx.guard)
        if "to" not in t or g is FALSE:
            if "to" not in t:
                self.panic(g, "diverge:" + (callee.args[0].name if callee.op == "fn" else "?"), t.get("span"), fr.fn.key)
            return []
        self.write_place(fr, t["dest"], ret, st)
        return [(t["to"], g, st)]

    def lift_panics(self, mark, g):
        if g is TRUE:
            return
        for p in self.panics[mark:]:
            p.guard = AND(g, p.guard)

    def apply(self, callee, args, st, ctx):
        """call a function value; mutates st; may set ctx.guard"""
        callee = self.get(callee, st)
        if callee.op == "cond":
            # which function is called depends on a condition
            a, hi, lo = callee.args
            c = mk("cond", a, TRUE, FALSE)
            return self.branch(c, st, ctx,
                               lambda s: self.apply(hi, args, s, ctx),
                               lambda s: self.apply(lo, args, s, ctx))
        if callee.op == "clo":
            fn = self.w.fns.get(callee.args[0])
            if fn is None:
                return self.opaque("closure", args, st, ctx)
            # closure arguments arrive untupled here
            cell = ("C", uid())
            st[cell] = callee
            self_arg = callee
            ty0 = ty_s(fn.locals[1]["ty"]) if fn.nargs else ""
            if "&mut" in ty0[:12] or re.match(r"&('\S+ )?mut ", ty0):
                self_arg = REF(cell, ())
            ret, s2, g = self.call_fn(fn, [self_arg] + args, st)
            st.clear()
            st.update(s2)
            st.pop(cell, None)
            ctx.also(g)
            return ret
        if callee.op != "fn":
            return self.opaque("indirect", [callee] + args, st, ctx)
        ref = callee.args[0]
        m = self.models.get(ref.name)
        if m is not None:
            r = m(self, ctx, ref, args, st)
            if r is not None:
                return r
        key = ref.target
        fn = self.w.fns.get(key) if key else None
        if fn is None and ref.trait:
            fn = self.dispatch(ref, args, st)
        if fn is not None and fn.key not in self.no_inline and (self.inline_pred is None or self.inline_pred(fn.key)):
            if self.stack.count(fn.key) < 2:
                ret, s2, g = self.call_fn(fn, args, st)
                st.clear()
                st.update(s2)
                ctx.also(g)
                return ret
        if ref.ctor:
            return self.construct(ref, args, ctx)
        return self.opaque(ref.fullname, args, st, ctx)

    def construct(self, ref, args, ctx):
        parts = ref.path.split("::")
        v = parts[-1]
        en = adt_name(re.sub(r"::<.*?>(?=::\w+$)", "", "::".join(parts)))
        owner = "::".join(en.split("::")[:-1])
        if owner in VARIANTS and owner.startswith("std::"):
            return mk("adt", owner, v, tuple((str(i), a) for i, a in enumerate(args)))
        k = re.sub(r"::\{constructor#\d+\}$", "", ref.key)
        own = "::".join(k.split("::")[:-1])
        own2 = self.w.adt_key(own, "")
        if own in VARIANTS or own2 in VARIANTS:
            return mk("adt", own2, v, tuple((str(i), a) for i, a in enumerate(args)))
        return mk("adt", self.w.adt_key(k, ""), None, tuple((str(i), a) for i, a in enumerate(args)))

    def dispatch(self, ref, args, st):
        """trait method on a receiver whose concrete type is known from its value"""
        cands = self.w.trait_impls.get(ref.key)
        if not cands or not args:
            return None
        v = self.get(args[0], st)
        while v.op == "upd":
            v = v.args[0]
        if v.op == "adt":
            for imp, key in cands:
                selfty = ty_s(imp["self"])
                if self.w.adt_key(strip_refs(selfty).split("<")[0], imp["crate"]) == v.args[0]:
                    return self.w.fns.get(key)
        return None

    def opaque(self, name, args, st, ctx):
        vals = [self.deep(a, st) for a in args]
        self.opaque_calls.add(name)
        ret = pure(name, *vals)
        if name.split("::")[-1].endswith("_mut") and any(a.op == "ref" for a in args):
            # the caller may write through the reference returned: nothing is known afterwards
            vals = vals + [INT(uid())]
            ret = mk("call", name, *vals)
        for i, a in enumerate(args):
            self.havoc(a, name, i, vals, st)
        return ret

    def havoc(self, a, name, i, vals, st):
        if a.op == "ref":
            cur = self.read(a.args[0], a.args[1], st)
            if cur.op == "ref":
                return self.havoc(cur, name, i, vals, st)
            self.write(a.args[0], a.args[1], mk("mut", name, i, tuple(vals)), st)
        elif a.op in ("adt", "tup", "clo", "arr", "cond", "upd") and has_ref(a):
            for r in refs_in(a):
                self.write(r.args[0], r.args[1], mk("mut", name, i, tuple(vals)), st)

    def branch(self, c, st, ctx, hi, lo):
        """run hi/lo on copies of the state, merge"""
        c = as_bool(c)
        if c is TRUE:
            return hi(st)
        if c is FALSE:
            return lo(st)
        s1, s2 = dict(st), dict(st)
        cg = ctx.guard
        ctx.guard = TRUE
        mark = len(self.panics)
        try:
            v1 = hi(s1)
            g1 = ctx.guard
        except Dead:
            v1, g1 = UNDEF, FALSE
        for p in self.panics[mark:]:
            p.guard = AND(c, p.guard)
        ctx.guard = TRUE
        mark = len(self.panics)
        try:
            v2 = lo(s2)
            g2 = ctx.guard
        except Dead:
            v2, g2 = UNDEF, FALSE
        nc = NOT(c)
        for p in self.panics[mark:]:
            p.guard = AND(nc, p.guard)
        e1, e2 = AND(c, g1), AND(nc, g2)
        s1[("R", 0)] = v1
        s2[("R", 0)] = v2
        G, s = self.merge([(e1, s1), (e2, s2)])
        ctx.guard = AND(cg, G)
        if G is FALSE:
            raise Dead()
        r = s.pop(("R", 0), UNDEF)
        st.clear()
        st.update(s)
        return r

    # ------------------------------------------------------------ loops
    def loop(self, fr, header, body, g, st):
        if g is not TRUE:
            st = {c: restrict(v, g) if v.op == "cond" else v for c, v in st.items()}

        def run(hst, lp):
            self.skipctx.append(lp)
            try:
                outs, back = self.region(fr, header, body, [(TRUE, hst)], header)
            finally:
                self.skipctx.pop()
            back += lp.skips
            return back, [(t, eg, es) for t, eg, es in outs]
        mark = len(self.panics)
        edges = self.solve_loop(st, run, fr)
        self.lift_panics(mark, g)
        return [(t, AND(g, eg), es) for t, eg, es in edges]

    def solve_loop(self, entry, run, fr=None, frame_ret=True):
        """entry: state before the loop.  run(header state, loop) -> (back edges
        [(guard, state)], exits [(tag, guard, state)]).  Returns the exits with
        guards and states expressed over the state before the loop."""
        self.loopdepth += 1
        try:
            return self._solve_loop(entry, run, fr)
        finally:
            self.loopdepth -= 1

    def _solve_loop(self, entry, run, fr):
        lp = Loop(self.loopdepth)
        Lp = lp.L
        mods = {}     # (cell, path) -> mu term
        nret = len(fr.ret_edges) if fr else 0
        for rnd in range(60):
            hst = dict(entry)
            for (cell, path), mu in mods.items():
                self.write(cell, path, mu, hst)
            mark = len(self.panics)
            emark = len(self.events)
            lmark = len(self.loop_list)
            lp.skips = []
            if fr:
                del fr.ret_edges[nret:]
            back, outs = run(dict(hst), lp)
            gC, sC = self.merge(back) if back else (FALSE, {})
            new = []
            if gC is not FALSE:
                for cell in entry:
                    if cell in sC and sC[cell] is not hst[cell]:
                        for path in diff(hst[cell], restrict(sC[cell], gC)):
                            if not any(c2 == cell and path[:len(p2)] == p2 for c2, p2 in mods):
                                new.append((cell, path))
            if not new:
                break
            del self.panics[mark:]
            del self.events[emark:]
            del self.loop_list[lmark:]
            for cell, path in new:
                for (c2, p2) in list(mods):
                    if c2 == cell and p2[:len(path)] == path:
                        del mods[(c2, p2)]
                if any(c2 == cell and path[:len(p2)] == p2 for (c2, p2) in mods):
                    continue
                mods[(cell, path)] = mk("mu", Lp, uid(), self.cellname(cell, path, fr))
        else:
            raise Abort("loop does not stabilise")
        # returns from inside the body (single return block: normally none)
        inner_rets = fr.ret_edges[nret:] if fr else []
        if fr:
            del fr.ret_edges[nret:]
        init = {}
        step = {}
        for (cell, path), mu in mods.items():
            init[mu] = self.read(cell, path, entry)
            step[mu] = restrict(project(sC[cell], path), gC)
        exits = [("x", t, eg, es) for t, eg, es in outs] + [("ret", None, eg, es) for eg, es in inner_rets]
        # --- counters
        sub_in = {}
        counters = [mu for mu in mods.values() if is_counter(mu, step[mu]) and not mus_in(init[mu], mods)]
        # element-wise updates keep the length
        for mu in mods.values():
            if all(length(lf) is mk("len", mu) for lf in leaves(step[mu])):
                sub_in[mk("len", mu)] = length(init[mu])
        kk = mk("k", Lp)
        src = None
        drive = None
        for mu in counters:
            d = counter_step(mu, step[mu])
            sub_in[mu] = add(init[mu], mulc(kk, d))
        # --- driving exit: not (N - mu > 0) at loop start with N invariant
        for kind, t, eg, es in exits:
            n = drive_tree(eg, sub_in, kk, mods)
            if n is not None:
                drive = (eg, None, n)
                break
        L = Lp
        if drive:
            src = loop_source(drive[2])
            L = mk("L", src, self.loopdepth)
        memo = dict(sub_in)
        if L is not Lp:
            memo = {m: subst(v, {Lp: L}) for m, v in sub_in.items()}
            memo[Lp] = L
            memo[mk("k", Lp)] = mk("k", L)
        for mu in mods.values():
            if mu not in sub_in:
                memo[mu] = mk("mu", L, mu.args[1], mu.args[2])
        k = mk("k", L)
        sub1 = dict(memo)

        def S(t):
            return _s(t, sub1)

        def _s(t, m):
            return subst(t, m)
        moreA = TRUE
        if drive:
            n = subst(drive[2], memo)
            moreA = pos(sub(n, k))
        # rewrite steps under "the iteration happens"
        gC2 = restrict(subst(gC, memo), moreA)
        steps = {}
        for mu in mods.values():
            if mu in sub_in:
                continue
            m2 = memo[mu]
            steps[m2] = restrict(restrict(subst(step[mu], memo), moreA), gC2)
        inits = {memo[mu]: subst(init[mu], memo) for mu in mods.values() if mu not in sub_in}
        # --- breaks
        brk = []
        for kind, t, eg, es in exits:
            if drive and eg is drive[0]:
                continue
            brk.append(restrict(subst(eg, memo), moreA))
        B = FALSE
        for x in brk:
            B = OR(B, x)
        # --- closed forms
        inmap, outmap = self.close(L, k, inits, steps, gC2, drive, memo, sub_in, B)
        info = LoopInfo()
        info.L, info.src, info.inits, info.steps = L, src, inits, {m: subst(s, inmap) for m, s in steps.items()}
        info.cont = subst(gC2, inmap) if gC2.op == "cond" else gC2
        info.fn = fr.fn.key if fr else None
        info.brk = [subst(x, inmap) for x in brk]
        info.fins = dict(outmap)
        info.inmap = inmap
        info.key = next((self.cellname(c, p, fr) for c, p in mods), None)
        both = Compose([memo, inmap])
        for li in self.loop_list[lmark:]:
            li.rewrite(both)
            self.loops[li.L] = li
        self.loops[L] = info
        self.loop_list.append(info)
        # --- exits
        res = []
        nb = [b for b in brk if b is not FALSE]
        GB = subst(B, inmap) if B.op == "cond" else B
        if drive:
            anyb = exists(L, GB)
        else:
            anyb = TRUE
        used = FALSE
        bi = 0
        inmemo = dict(memo)
        full_in = Compose([memo, inmap])
        full_out = Compose([memo, outmap])
        last = len(nb) - 1
        for kind, t, eg, es in exits:
            isdrive = drive and eg is drive[0]
            if isdrive:
                ng = NOT(anyb)
                cmpz = full_out
                kend = drivelen(L, n) if drive else None
                care = TRUE
            else:
                bg = restrict(subst(eg, memo), moreA)
                if bg is FALSE:
                    continue
                bgi = subst(bg, inmap) if bg.op == "cond" else bg
                if len(nb) == 1:
                    ng = anyb
                else:
                    if bi == last:
                        ng = AND(anyb, NOT(used))
                    else:
                        x = as_bool(mk("exitby", L, bgi, GB))
                        ng = AND(AND(anyb, x), NOT(used))
                        used = OR(used, x)
                    bi += 1
                cmpz = full_in
                kend = None
                care = bgi
            ns = {}
            for c, v in es.items():
                if c in entry and v is entry[c] and not any(mc == c for mc, _ in mods):
                    ns[c] = v
                    continue
                nv = cmpz(v)
                if kend is not None:
                    nv = tm.subst_k(nv, L, kend)
                elif care is not TRUE and nv.op == "cond":
                    nv = restrict(restrict(nv, moreA), care)
                ns[c] = nv
            if kind == "ret":
                fr.ret_edges.append((ng, ns))
            else:
                res.append((t, ng, ns))
        for p in self.panics[mark:]:
            pg = full_in(p.guard)
            p.guard = exists(L, restrict(pg, moreA)) if pg is not TRUE else TRUE
            p.loops = p.loops + (L,)
            if p.detail:
                p.detail = tuple(full_in(x) for x in p.detail)
        for e in self.events[emark:]:
            e.lift(full_in, L, moreA)
        return res

    def cellname(self, cell, path, fr):
        n = "t"
        if cell[0] == "P":
            n = cell[1]
        elif cell[0] == "L" and fr and cell[1] == fr.id:
            n = fr.fn.locals[cell[2]].get("name") or "t%d" % cell[2]
        for p in path:
            n += "." + (p[2] if p[0] == "f" else "[]")
        return n

    def close(self, L, k, inits, steps, gC, drive, memo, sub_in, B):
        """closed forms of loop-carried cells: (value at iteration start, value
        after exhaustion)"""
        inmap, outmap = {}, {}
        pend = dict(steps)
        n_iter = drivelen(L, subst(drive[2], memo)) if drive else mk("lenk", L)
        full = drive is not None
        for _ in range(4):
            prog = False
            for mu, s in list(pend.items()):
                s = subst(s, inmap) if inmap else s
                others = [m for m in inits if m is not mu and m in pend]
                I = inits[mu]
                ls = leaves(s)
                # a counter that became one after substitution
                d = None
                if not contains_any(I, [mu]):
                    dd = add(s, mu, -1) if s.op in ("lin", "mu") else None
                    if dd is not None and dd.op == "int":
                        inmap[mu] = add(I, mulc(k, dd.args[0]))
                        outmap[mu] = add(I, mulc(n_iter, dd.args[0]))
                        del pend[mu]
                        prog = True
                        continue
                # appends
                r = append_tree(mu, s)
                if r is not None and mk("len", mu) not in inmap:
                    t = maptree(r, items_len)
                    if UNDEF not in leaves(t) and not contains_any(t, [mu] + others):
                        inmap[mk("len", mu)] = add(length(I), psum(L, t, k))
                        prog = True
                if r is not None and full:
                    if not contains_any(r, [mu]):
                        outmap[mu] = seq_final(I, L, r)
                        del pend[mu]
                        prog = True
                        continue
                # grouping into a map of sequences
                r = group_tree(mu, s)
                if r is not None and full and empty_map(I):
                    if not contains_any(r, [mu]):
                        outmap[mu] = mk("call", "group", coll(L, r))
                        del pend[mu]
                        prog = True
                        continue
                # running sums
                t = sum_tree(mu, s)
                if t is not None and not contains_any(t, [mu] + others):
                    inmap[mu] = add(I, psum(L, t, k))
                    if full:
                        outmap[mu] = add(I, mk("sum", L, t))
                    del pend[mu]
                    prog = True
                    continue
                # set to a fixed value in some iterations
                f = flag_tree(mu, s) if full else None
                if f is not None and f[0] not in others and not contains_any(f[0], [mu, k] + others) and not contains_any(f[1], [mu] + others) \
                        and not any(u.op == "mu" and u.args[0] is L for u in subterms(f[1])):
                    some = ran(n_iter) if f[1] is TRUE else exists(L, f[1])
                    outmap[mu] = ite(some, f[0], I)
                    del pend[mu]
                    prog = True
                    continue
                # element-wise rewriting
                r = map_tree(mu, k, s)
                if r is not None:
                    el = mk("idx", mu, k)
                    r = subst(r, {el: index(I, k)})
                    if not contains_any(r, [mu]):
                        inmap[el] = index(I, k)
                        if full:
                            outmap[mu] = mapped(I, L, k, r)
                        del pend[mu]
                        prog = True
                        continue
            if not prog:
                break
        for mu in steps:
            if mu not in outmap and full:
                outmap[mu] = mk("fin", mu)
        o2 = dict(outmap)
        outmap = {m: subst(v, {a: b for a, b in inmap.items()}) if inmap else v for m, v in o2.items()}
        return inmap, outmap


class Compose:
    def __init__(self, maps):
        self.memos = [dict(m) for m in maps]

    def __call__(self, t):
        for m in self.memos:
            if m:
                t = tm._subst(t, m)
        return t


class Loop:
    def __init__(self, depth):
        self.L = mk("Lp", uid(), depth)
        self.skips = []


class Ctx:
    def __init__(self, eng, fr, t, g, st):
        self.e, self.fr, self.t, self.g = eng, fr, t, g
        self.guard = TRUE
        self.span = t.get("span") if t else None

    def also(self, g):
        if g is not TRUE:
            self.guard = AND(self.guard, g)
            if self.guard is FALSE:
                raise Dead()

    @property
    def destty(self):
        return self.t.get("destty", "") if self.t else ""

    @property
    def argtys(self):
        return self.t.get("argtys", []) if self.t else []


class FnRef:
    cache = {}
    __slots__ = ("name", "key", "path", "trait", "target", "gargs", "self_ty", "ctor", "fullname", "rkind", "impl_self")

    @classmethod
    def of(cls, d):
        import json
        k = json.dumps(d, sort_keys=True)
        r = cls.cache.get(k)
        if r is None:
            r = cls()
            r.key = d["key"]
            r.path = d["path"]
            r.trait = d.get("trait")
            res = d.get("res") or {}
            r.rkind = res.get("kind")
            r.target = res.get("key") if res.get("kind") in ("item", "closure_once") else None
            r.gargs = d.get("gargs", [])
            r.impl_self = res.get("impl_self")
            r.self_ty = r.gargs[0] if r.trait and r.gargs else r.impl_self
            r.name = canon(r.path)
            r.ctor = "{constructor" in r.key
            r.fullname = r.name
            if r.name in TYPED or r.trait in TYPED_TRAITS:
                r.fullname = r.name + "<" + ",".join(g for g in r.gargs if not g.startswith("'")) + ">"
            cls.cache[k] = r
        return r


TYPED = {"serde_json::from_slice", "serde_json::from_value", "serde_json::from_str", "bincode::deserialize",
         "bincode::deserialize_from", "FromStr::from_str", "str::parse", "TryInto::try_into", "TryFrom::try_from",
         "Default::default", "u16::from_str_radix"}
TYPED_TRAITS = {"std::str::FromStr", "std::default::Default"}


# ---------------------------------------------------------------- helpers
def ty_s(t):
    if isinstance(t, dict):
        return t.get("s") or t.get("text") or str(t)
    return t


_href = {}


def has_ref(t):
    r = _href.get(t)
    if r is None:
        if t.op == "ref":
            r = True
        else:
            r = any(has_ref(c) for c in children(t))
        _href[t] = r
    return r


def refs_in(t):
    return [u for u in subterms(t) if u.op == "ref"]


def project(v, path):
    for e in path:
        if e[0] == "f":
            if e[2] in ("pointer",) or (e[2] == "0" and v.op in ("str",)):
                continue
            v = field(v, e[2], e[1])
        elif e[0] == "i":
            v = index(v, e[1])
        elif e[0] == "key":
            v = map_at(v, e[1], e[2])
    return v


def store(v, path, val):
    if not path:
        return val
    e = path[0]
    if v.op == "cond":
        return maptree(v, lambda u: store(u, path, val))
    if e[0] == "f":
        return upd_field(v, e[2], e[1], store(field(v, e[2], e[1]), path[1:], val))
    if e[0] == "i":
        return updi(v, e[1], store(index(v, e[1]), path[1:], val))
    if e[0] == "key":
        return map_set(v, e[1], store(map_at(v, e[1], e[2]), path[1:], val))
    return val


def map_at(m, k, default):
    if m.op == "updk" and m.args[1] is k:
        return m.args[2]
    if m.op == "arr" and not m.args:
        return default
    if m.op == "call" and m.args[0] in ("HashMap::new", "BTreeMap::new") and len(m.args) == 1:
        return default
    return mk("atkey", m, k, default)


def map_set(m, k, v):
    if m.op == "updk" and m.args[1] is k:
        m = m.args[0]
    return mk("updk", m, k, v)


def diff(old, new, path=()):
    if old is new:
        return []
    if old.op == "adt" and new.op == "adt" and old.args[0] == new.args[0] and old.args[1] == new.args[1]:
        r = []
        for (n, a), (_, b) in zip(old.args[2], new.args[2]):
            r += diff(a, b, path + (("f", old.args[1], n),))
        return r
    if old.op == "tup" and new.op == "tup" and len(old.args) == len(new.args):
        r = []
        for i, (a, b) in enumerate(zip(old.args, new.args)):
            r += diff(a, b, path + (("f", None, str(i)),))
        return r
    if old.op == "clo" and new.op == "clo" and old.args[0] == new.args[0]:
        r = []
        for i, (a, b) in enumerate(zip(old.args[1], new.args[1])):
            r += diff(a, b, path + (("f", None, str(i)),))
        return r
    if new.op == "upd" or old.op == "upd":
        ob, od = (old.args[0], dict(old.args[1])) if old.op == "upd" else (old, {})
        nb, nd = (new.args[0], dict(new.args[1])) if new.op == "upd" else (new, {})
        if ob is nb:
            r = []
            for e in sorted(set(od) | set(nd), key=str):
                a = od.get(e) or field(ob, e[1], e[0])
                b = nd.get(e) or field(nb, e[1], e[0])
                r += diff(a, b, path + (("f", e[0], e[1]),))
            return r
    if new.op == "cond" or old.op == "cond":
        # compare branch by branch
        r = []
        for o, n in branch_pairs(old, new):
            for p in diff(o, n, path):
                if p not in r:
                    r.append(p)
        return [p for p in r if not any(q != p and p[:len(q)] == q for q in r)]
    return [path]


def branch_pairs(a, b, limit=64):
    """pairs of leaves of two diagrams that occur together"""
    out, seen = [], set()

    def go(x, y):
        if (x, y) in seen or len(out) > limit:
            return
        seen.add((x, y))
        if x.op != "cond" and y.op != "cond":
            if x is not y:
                out.append((x, y))
            return
        m = min(tm._top(x), tm._top(y))
        at = (x if tm._top(x) == m else y).args[0]
        go(tm._cof(x, at, True), tm._cof(y, at, True))
        go(tm._cof(x, at, False), tm._cof(y, at, False))

    go(a, b)
    return out


def is_boolish(t):
    return t.op in ("cond", "eq", "pos", "zero", "is", "not", "bool", "exists", "exitby") or t.op == "call"


def binop(op, a, b, ty):
    op = op.replace("Unchecked", "")
    if op in ("Add", "AddWithOverflow"):
        r = add(a, b)
    elif op in ("Sub", "SubWithOverflow"):
        r = sub(a, b)
    elif op in ("Mul", "MulWithOverflow"):
        r = mul(a, b)
    elif op in ("Eq", "Ne"):
        if ty == "bool":
            a, b = as_bool(a), as_bool(b)
            r = ite(a, b, NOT(b))
        elif a.op == "discr" and b.op == "discr":
            r = discr_eq(a, b)
        else:
            r = eq(a, b)
        if op == "Ne":
            r = NOT(r)
        return r
    elif op in ("Lt", "Le", "Gt", "Ge"):
        if op in ("Gt", "Ge"):
            a, b = b, a
            op = {"Gt": "Lt", "Ge": "Le"}[op]
        if ty in INTR or ty == "char":
            return lt(a, b) if op == "Lt" else le(a, b)
        if op == "Lt":
            return pure("lt", a, b)
        return NOT(pure("lt", b, a))
    elif op in ("BitAnd", "BitOr", "BitXor"):
        if ty == "bool":
            a, b = as_bool(a), as_bool(b)
            if op == "BitAnd":
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            return ite(a, NOT(b), b)
        if a.op == "int" and b.op == "int":
            x, y = a.args[0], b.args[0]
            return INT({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
        if a.id > b.id:
            a, b = b, a
        return mk("bin", op, a, b)
    elif op == "Shl":
        if b.op == "int":
            return mulc(a, 1 << b.args[0])
        return mk("bin", "Shl", a, b)
    elif op == "Shr":
        if b.op == "int" and a.op == "int":
            return INT(a.args[0] >> b.args[0])
        return mk("bin", "Shr", a, b)
    elif op == "Div":
        if b.op == "int" and b.args[0] != 0:
            if a.op == "int":
                q = abs(a.args[0]) // abs(b.args[0])
                return INT(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
            n = b.args[0]
            if ty.startswith("u") and n > 0 and n & (n - 1) == 0:
                return mk("bin", "Shr", a, INT(n.bit_length() - 1))
        return hoisted(lambda x, y: mk("bin", "Div", x, y), [a, b])
    elif op == "Rem":
        if b.op == "int" and b.args[0] > 0:
            n = b.args[0]
            if a.op == "int":
                return INT(a.args[0] % n if a.args[0] >= 0 else -(-a.args[0] % n))
            if ty.startswith("u") and n & (n - 1) == 0:
                return binop("BitAnd", a, INT(n - 1), ty)
        return hoisted(lambda x, y: mk("bin", "Rem", x, y), [a, b])
    elif op == "Cmp":
        return mk("call", "Ord::cmp", a, b)
    else:
        return mk("bin", op, a, b)
    if op.endswith("WithOverflow"):
        return mk("tup", r, FALSE)
    return r


def _rebin(op, a, b):
    return binop(op, a, b, "usize")


tm.REBUILD["bin"] = _rebin


def discr_eq(a, b):
    x, y = a.args[0], b.args[0]
    en = a.args[1]
    vs = VARIANTS.get(en)
    for p, q in ((x, y), (y, x)):
        if p.op == "adt" and p.args[1]:
            return isv(q, en, p.args[1])
    if vs and len(vs) <= 4:
        r = FALSE
        for v in vs:
            r = OR(r, AND(isv(x, en, v), isv(y, en, v)))
        return r
    return mk("eq", *sorted((a, b), key=lambda t: t.id))


def mus_in(t, mods):
    s = subterms(t)
    return any(m in s for m in mods.values())


_ca = {}


def contains_any(t, us):
    s = subterms(t)
    return any(u in s for u in us)


def counter_step(mu, s):
    d = add(s, mu, -1)
    if d.op == "int" and d.args[0] != 0:
        return d.args[0]
    return None


def is_counter(mu, s):
    if s.op not in ("lin",):
        return False
    return counter_step(mu, s) is not None


def drive_of(a, neg, sub_in, kk, mods):
    """the exit condition `a` (negated if neg) reads: stop when k >= N; -> N"""
    if a.op == "pos":
        e = subst(a.args[0], dict(sub_in))
        # e > 0 ; continue while (neg) e > 0
        if not neg:
            # stop when e > 0  <=> continue while 1 - e > 0
            e = sub(INT(1), e)
    elif a.op == "zero":
        # stop when e == 0 counting up or down by one
        e = subst(a.args[0], dict(sub_in))
        if neg:
            return None
        c, ts = lin_parts(e)
        d = dict(ts)
        if d.get(kk) == 1:
            e = mulc(e, -1)
    else:
        return None
    c, ts = lin_parts(e)
    d = dict(ts)
    if d.get(kk) != -1:
        return None
    del d[kk]
    n = mklin(c, d)
    s = subterms(n)
    if kk in s or any(m in s for m in mods.values()):
        return None
    return n


def drive_tree(eg, sub_in, kk, mods):
    """like drive_of for an exit condition that is a diagram over loop-invariant atoms"""
    if eg.op != "cond":
        return None
    a, hi, lo = eg.args
    if hi is FALSE and lo is TRUE:
        return drive_of(a, True, sub_in, kk, mods)
    if hi is TRUE and lo is FALSE:
        return drive_of(a, False, sub_in, kk, mods)
    s = subterms(a)
    if kk in s or any(m in s for m in mods.values()):
        return None
    n1 = drive_tree(hi, sub_in, kk, mods)
    n2 = drive_tree(lo, sub_in, kk, mods) if n1 is not None else None
    if n2 is None:
        return None
    return ite(mk("cond", a, TRUE, FALSE), n1, n2)


def loop_source(n):
    """n iterations: over a sequence when n is its length"""
    if n.op == "cond":
        t = maptree(n, loop_source)
        ls = leaves(t)
        if all(x.op == "over" for x in ls):
            return mk("over", maptree(t, lambda x: x.args[0]))
        return mk("range", INT(0), n)
    if n.op == "len":
        return mk("over", n.args[0])
    c, ts = lin_parts(n)
    lens = [t for t, kf in ts if t.op == "len" and kf == 1]
    if len(lens) == 1 and len(ts) == 1 and c < 0:
        x = lens[0].args[0]
        return mk("over", mk("slice", x, INT(-c), lens[0]))
    if len(lens) == 1:
        x = lens[0].args[0]
        st = sub(lens[0], n)
        if all(kf > 0 for _, kf in lin_parts(st)[1]) and lin_parts(st)[0] >= 0:
            return mk("over", mk("slice", x, st, lens[0]))
    return mk("range", INT(0), n)


def drivelen(L, n):
    return n


def exists(L, g):
    """some iteration of L satisfies g"""
    if g is FALSE:
        return FALSE
    g = as_bool(g)
    k = mk("k", L)
    # a condition that does not depend on the iteration
    return mk("cond", mk("exists", L, g), TRUE, FALSE)


def ran(n):
    """n iterations are at least one"""
    if n.op == "len":
        return NOT(zero(n))
    return pos(n)


def flag_tree(mu, s):
    """(value, condition) if every leaf of s is mu or one fixed value"""
    vs = [l for l in leaves(s) if l is not mu]
    if len(vs) != 1 or vs[0].op in ("app", "updi", "upd", "updk", "mut", "fin", "mu", "call"):
        return None
    return vs[0], as_bool(maptree(s, lambda x: FALSE if x is mu else TRUE))


def append_tree(mu, s):
    """tree of item sequences if every leaf appends to mu"""
    bad = []

    def f(leaf):
        items = []
        x = leaf
        while x.op == "app":
            items.append(x.args[1])
            x = x.args[0]
        if x is not mu:
            bad.append(leaf)
            return UNDEF
        return mk("seq", *items[::-1])

    r = maptree(s, f)
    if bad:
        return None
    if r.op == "seq" and not r.args:
        return None
    return r


WIDTH = {"write_u8": 1, "write_i8": 1, "write_u16": 2, "write_i16": 2, "write_u32": 4, "write_i32": 4,
         "write_u64": 8, "write_i64": 8, "push": 1}


def item_len(it):
    n = it.args[0]
    if n in WIDTH:
        return INT(WIDTH[n])
    if n in ("push_str", "extend", "write_all"):
        return length(it.args[1])
    return UNDEF


def items_len(seq):
    r = INT(0)
    for it in seq.args:
        n = item_len(it)
        if n is UNDEF:
            return UNDEF
        r = add(r, n)
    return r


def empty_map(m):
    return (m.op == "arr" and not m.args) or (m.op == "call" and m.args[0] in ("HashMap::new", "BTreeMap::new") and len(m.args) == 1)


def group_tree(mu, s):
    """tree of (key, value) pairs if every leaf pushes a value to the sequence of its key"""
    bad = []

    def f(leaf):
        pairs = []
        x = leaf
        while x.op == "updk":
            m, k, v = x.args
            if not (v.op == "app" and v.args[1].args[0] == "push" and v.args[0].op == "atkey"
                    and v.args[0].args[0] is m and v.args[0].args[1] is k
                    and v.args[0].args[2].op == "arr" and not v.args[0].args[2].args):
                bad.append(leaf)
                return UNDEF
            pairs.append(mk("it", mk("tup", k, v.args[1].args[1])))
            x = m
        if x is not mu:
            bad.append(leaf)
            return UNDEF
        return mk("seq", *pairs[::-1])

    r = maptree(s, f)
    if bad or (r.op == "seq" and not r.args):
        return None
    return r


def sum_tree(mu, s):
    bad = []

    def f(leaf):
        d = add(leaf, mu, -1) if leaf.op in ("lin", "mu") else None
        if d is None or contains(d, mu):
            bad.append(leaf)
            return UNDEF
        return d

    r = maptree(s, f)
    return None if bad else r


def map_tree(mu, k, s):
    bad = []
    el = mk("idx", mu, k)

    def f(leaf):
        if leaf is mu:
            return el
        if leaf.op == "updi" and leaf.args[0] is mu and leaf.args[1] is k:
            return leaf.args[2]
        bad.append(leaf)
        return UNDEF

    r = maptree(s, f)
    return None if bad else r


def mapped(I, L, k, r):
    if L.op == "L" and L.args[0].op == "over" and (L.args[0].args[0] is I or length(I) is length(L.args[0].args[0])):
        if r is index(I, k):
            return I
        return coll(L, mk("seq", mk("it", r)) if r.op != "cond" else maptree(r, lambda x: mk("seq", mk("it", x))))
    return mk("mapd", I, L, r)


def coll(L, tree):
    # [v[k] for k] is v
    if tree.op == "seq" and len(tree.args) == 1 and tree.args[0].op == "it":
        x = tree.args[0].args[0]
        if L.op == "L" and L.args[0].op == "over" and x is index(L.args[0].args[0], mk("k", L)):
            return L.args[0].args[0]
        if L.op == "L" and L.args[0].op == "over" and tree.args[0].op == "it":
            pass
    return mk("coll", L, tree)


tm.REBUILD["coll"] = coll


def seq_final(I, L, tree):
    """append, per iteration, the items of `tree` to I"""
    kinds = set()
    for leaf in leaves(tree):
        for it in leaf.args:
            kinds.add(it.args[0])

    def conv(leaf, f):
        return mk("seq", *[f(it) for it in leaf.args])

    if kinds <= {"push", "extend"}:
        t2 = maptree(tree, lambda lf: conv(lf, lambda it: mk("it", it.args[1]) if it.args[0] == "push" else mk("spl", it.args[1])))
        c = coll(L, flat_seq(t2))
        if I.op == "arr" and not I.args:
            return c
        return app(I, mk("item", "extend", c))
    if kinds == {"push_str"}:
        t2 = maptree(tree, lambda lf: conv(lf, lambda it: mk("it", it.args[1])))
        return app(I, mk("item", "push_str", mk("call", "concat", coll(L, t2))))
    t2 = maptree(tree, lambda lf: conv(lf, lambda it: mk("it", it)))
    return app(I, mk("item", "each", coll(L, t2)))


def flat_seq(tree):
    def f(leaf):
        out = []
        for it in leaf.args:
            if it.op == "spl" and it.args[0].op == "arr":
                out += [mk("it", x) for x in it.args[0].args]
            else:
                out.append(it)
        return mk("seq", *out)
    return maptree(tree, f)
