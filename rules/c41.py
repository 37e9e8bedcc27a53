"""C41. Two analyses per dictionary.  (a) Every function reachable from build_dictionary and
build_user_dictionary of its builder (closures, function values and all implementations behind
trait objects included) is searched for reads of clock, environment, randomness, process, thread
or network state, for statics that can change, for tests of what is already on disk, and for
directory listings that come in the order of the file system.  (b) The values of both functions
are derived, and every path that is opened, listed, created or written in them is taken from the
expressions.  The rule: sources are opened at, and only at, the input argument or a name joined
to it, results are created at the output argument or a name joined to it, and are created anew:
not opened to append to, not taken from an earlier result."""
import re
from .common import *
from . import c15
from .c27 import BUILDERS
from lintlib import census as cs

ASSUMES = ["File::create empties a file that exists", "glob::glob lists the files in alphabetical order"]

AMBIENT = re.compile(r"^(std|core|alloc)::(env|time|process|random|net|thread)::|\bLocalKey\b|io::(stdio::)?[sS]tdin|^(rand|getrandom|fastrand|chrono|time)::|RandomState::(new|hash_one)|hash_one|SystemTime|Instant::|available_parallelism")
STATE = {"Path::exists", "Path::try_exists", "Path::is_file", "Path::is_dir", "Path::metadata", "fs::metadata", "fs::exists", "File::metadata",
         "Path::symlink_metadata", "Metadata::len", "Metadata::modified", "File::create_new", "File::open_buffered"}
LISTING = {"fs::read_dir", "Path::read_dir"}
READS = ("File::open", "fs::read", "fs::read_to_string", "glob::glob", "ReaderBuilder::from_path", "Reader::from_path", "glob::glob_with")
WRITES = ("File::create", "fs::write", "fs::create_dir_all", "fs::create_dir")


def under(path, par):
    """is the path the argument, or something joined to it?"""
    while path.op == "call" and path.args[0] in ("Path::join", "PathBuf::from", "Path::to_path_buf", "Path::new", "Path::with_extension"):
        path = path.args[1]
    if path is par:
        return True
    if path.op == "app":
        return contains(path, par)
    return False


def check(c):
    w = c.w()

    def tail(p):
        return "::".join(p.split("::")[-2:])

    def effects(name, crate):
        def go():
            es = [k for k in w.fns if w.fns[k].crate == crate and k.split("::")[-1] in ("build_dictionary", "build_user_dictionary")
                  and "{closure" not in k and "promoted" not in k]
            if len(es) < 2:
                raise Missing("builder of %s" % name)
            seen, ext = c15.reachable(w, es)
            c.functions.update(seen)
            for p, ks in sorted(ext.items()):
                k = sorted(ks)[0]
                require(not AMBIENT.search(p), "%s is called by %s" % (cs.short(p), k), k)
                require(tail(p) not in STATE, "the build depends on what is on disk already: %s is called by %s" % (cs.short(p), k), k)
                if tail(p) in LISTING:
                    raise Undecided("%s lists a directory, in an order of the file system's" % k)
            for k in seen:
                for s in c15.statics_of(w.fns[k]):
                    i = [x for x in w.items if x["key"] == s or x["key"].endswith("::" + str(s))]
                    for x in i:
                        require(not x.get("mutable"), "%s uses %s, which can change" % (k, s), k)
            c.floor("functions reachable from building %s" % name, len(seen), 20)
            return "%d functions, %d operations outside" % (len(seen), len(ext))
        return go

    def roots(r):
        out = [r.ret] + [v for _, _, v, _, _ in r.writers] + [g for _, _, _, _, g in r.writers]
        for l in r.loops:
            out += [l.cont, l.brk, l.L] + list(l.steps.values())
        return [x for x in out if hasattr(x, "op")]

    def places(name, crate, fn):
        def go():
            r = c.analyse(fn, None, crate=crate)
            ps = fn_params(c, r.key)
            ps = [p for p in ps if p and p != "self"]
            decided(len(ps) == 2, "arguments %s" % ps)
            src, out = mk("par", ps[0]), mk("par", ps[1])
            seen = set()
            n = m = 0
            for root in roots(r):
                for u in subterms(root):
                    if u.op != "call" or u in seen:
                        continue
                    seen.add(u)
                    if u.args[0] == "OpenOptions::open":
                        decided(u.args[1].op == "str", "%s is opened in an unknown way" % show(u.args[-1], 5))
                        how = set(u.args[1].args[0].split("+"))
                        require("append" not in how, "%s is appended to: what an earlier build wrote stays" % show(u.args[-1], 5))
                        require("write" not in how or "create_new" in how, "%s is written over, but not emptied: what an earlier build wrote can stay" % show(u.args[-1], 5))
                        require("create_new" not in how, "the build depends on whether %s exists" % show(u.args[-1], 5))
                        raise Undecided("%s is opened to %s" % (show(u.args[-1], 5), how))
                    if u.args[0] in READS:
                        p = u.args[2] if u.args[0].endswith("from_path") and len(u.args) > 2 else u.args[1]
                        require(not contains(p, out) or contains(p, src), "%s is read while building" % show(p, 5))
                        decided(contains(p, src) or unresolved(p) is None, "%s is read" % show(p, 5))
                        require(contains(p, src), "%s is read while building" % show(p, 5))
                        n += 1
                    if u.args[0] in WRITES:
                        p = u.args[1]
                        require(not contains(p, src) or contains(p, out), "%s is written while building" % show(p, 5))
                        decided(under(p, out) or unresolved(p) is None, "%s is written" % show(p, 5))
                        if not under(p, out):
                            decided(p.op == "f" or p.op == "call", "%s is written" % show(p, 5))
                            require(contains(p, out), "%s is written while building" % show(p, 5))
                        m += 1
            decided(n and m, "%d files read, %d written" % (n, m))
            return "%d places read, %d written" % (n, m)
        return go

    for name, crate in BUILDERS.items():
        c.ob("%s: nothing ambient" % name, effects(name, crate))
        for fn in ("build_dictionary", "build_user_dictionary"):
            c.ob("%s: places of %s" % (name, fn), places(name, crate, fn))
