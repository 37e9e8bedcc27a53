"""C30. The command line's `main` is reduced, per subcommand, to the text it prints and to the
values it hands to the library, as terms over the parsed arguments.  The rule: `tokenize` builds the
analyzer of the dictionary, user dictionary, mode and filters (in order) the options name, reads
lines until there are none, and for each line prints exactly: in MeCab format per token its text, a
tab, its details joined by commas and a newline, then an EOS line; in word-separated format the
texts of all tokens separated by one space, on one line; in JSON format the list of all tokens, each
with its text, details, positions and word id.  Any other format is an error.  `build` gives the
builder of the chosen kind the source and the destination; `list` prints the name of every kind."""
from .common import *
from lintlib.models import decode_fmt

ASSUMES = ["clap fills each argument from the option it is declared with", "serde_json prints a list of values as one JSON text"]
FORMATS = ("mecab", "wakati", "json")
OPAQUE = ("analyze", "load_dictionary_from_config", "load_user_dictionary_from_config", "load_from_cli_flag", "resolve_builder")


WAYS = {}       # mu -> its loop


def unrolled(t, m):
    """what one iteration appends to m, as a tree of items"""
    if t is m:
        return mk("seq")
    if t.op == "cond":
        return cond(t.args[0], unrolled(t.args[1], m), unrolled(t.args[2], m))
    decided(t.op == "app" and t.args[1].args[0] in ("push_str", "push", "write_fmt", "write_all"), "output is %s" % show(t, 5))
    return maptree(unrolled(t.args[0], m), lambda x: mk("seq", *(x.args + (mk("it", t.args[1].args[1]),))))


def lit(x):
    return x.op == "str"


def joined(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def sub_pieces(x):
    if x.op == "str":
        return [x.args[0]]
    if x.op == "int":
        return [chr(x.args[0])]
    if x.op == "app":
        return pieces(x, None)
    if x.op == "call" and x.args[0] == "concat":
        y = x.args[1]
        if y.op == "coll":
            return [("each", y.args[0], y.args[1])]
        if y.op == "arr":
            return [p for e in y.args for p in sub_pieces(e)]
    if x.op == "call" and x.args[0] == "fmt_args":
        ps = decode_fmt(x)
        decided(ps is not None, "output formatted as %s" % show(x, 5))
        return [p for e in ps for p in sub_pieces(e)]
    if x.op == "call" and x.args[0] == "to_string":
        return sub_pieces(x.args[1])
    return [x]


def pieces(t, base):
    """what was appended to base, in order: str | term | ('each', loop, tree)"""
    if t is base:
        return []
    if t.op == "app":
        it = t.args[1]
        decided(it.args[0] in ("push_str", "push", "write_fmt", "write_all", "extend"), "output by %s" % show(it, 3))
        return joined(pieces(t.args[0], base) + sub_pieces(it.args[1]))
    if t.op == "fin" and t.args[0] in WAYS:
        l, m = WAYS[t.args[0]], t.args[0]
        decided(all(b is FALSE for b in l.brk) and l.L.op != "Lp", "output is %s" % show(t, 5))
        return joined(pieces(l.inits[m], base) + [("each", l.L, unrolled(l.steps[m], m))])
    decided(base is None or not any(u is base for u in subterms(t)), "output is %s" % show(t, 5))
    decided(base is None, "earlier output is replaced by %s" % show(t, 4))
    return joined(sub_pieces(t))


def body(tree):
    decided(tree.op == "seq", "printed per token: %s" % show(tree, 4))
    ps = []
    for e in tree.args:
        if e.op == "spl":
            raise Undecided("printed per token: %s" % show(e, 5))
        ps += sub_pieces(e.args[0])
    return joined(ps)


def text_of(ps):
    return " + ".join(repr(p) if isinstance(p, str) else "each(%s)" % show(p[2], 6) if isinstance(p, tuple) else show(p, 5) for p in ps) or "nothing"


def check(c):
    w = c.w()
    st = {}
    ops = tuple(k for k in w.fns if k.split("::")[-1] in OPAQUE and "closure" not in k)

    def command(name):
        if name not in st:
            def mode(u, enum):
                if enum == RESULT:
                    return "Ok"
                if enum.endswith("Commands") and enum.startswith("lindera"):
                    return name
                return None
            key = [k for k in w.fns if k == "lindera::main"]
            require(key, "the command line has no main")
            r = c.analyse(key[0], mode, opaque=ops)
            p = [u for u in subterms(mk("tup", r.ret, r.final("stdout"))) if u.op == "call" and u.args[0].endswith("Parser::parse")]
            for l in r.loops:
                p += [u for s in l.steps.values() for u in subterms(s) if u.op == "call" and u.args[0].endswith("Parser::parse")]
            decided(p, "arguments are not parsed by clap")
            st[name] = r, field(field(p[0], "command"), "0", name)
        return st[name]

    def arg(A, x):
        return field(A, x)

    def per_line():
        """what is printed for a line: (arguments, {format: pieces}, analyzed tokens)"""
        r, A = command("Tokenize")
        if "line" in st:
            return st["line"]
        out = r.final("stdout")
        WAYS.clear()
        WAYS.update({m: l for l in r.loops for m in l.steps})
        f = arg(A, "output_format")
        ms = set()
        for u in leaves(out):
            while u.op == "app":
                u = u.args[0]
            ms |= {u} if u.op == "mu" else {u.args[0]} if u.op == "fin" else set()
        ms = [m for m in ms if m in WAYS and WAYS[m].L.op == "Lp"]
        decided(len(ms) <= 1, "output is %s" % show(out, 5))
        if ms:
            m = ms[0]
            l = WAYS[m]
            require(l.inits[m] is STR(""), "%s is printed before the first line" % show(l.inits[m], 4))
            st["loop"], st["base"], st["raw"] = l, m, out
            calls = l.steps[m]
        else:
            ls = {x.args[0] for x in subterms(out) if x.op == "coll" and any(u.op == "call" and u.args[0] == "BufRead::lines" for u in subterms(x.args[0].args[0])) and not any(u.op == "call" and u.args[0].endswith("Analyzer::analyze") for u in subterms(x.args[0].args[0]))}
            decided(len(ls) == 1, "output is %s" % show(out, 5))
            st["lines"] = ls.pop()
            calls = out
        ts = {u for u in subterms(calls) if u.op == "call" and u.args[0].endswith("Analyzer::analyze")}
        require(ts, "lines are printed without being analyzed")
        for T in sorted(ts, key=lambda t: show(t, 8)):
            source(T)
        decided(len(ts) == 1 or "lines" in st and len({t.args[1] for t in ts}) == 1, "a line is analyzed in %d ways" % len(ts))
        st["all"] = {t: mk("par", "analyzed") for t in ts}
        T = sorted(ts, key=lambda t: show(t, 12))[0]
        st["T"] = mk("par", "analyzed")
        st["line"] = A, T, st["T"]
        return st["line"]

    def source(T):
        """what T analyzes is the line read, up to white space around it"""
        line = src = T.args[2]
        while src.op == "call" and src.args[0] in ("str::trim", "str::trim_end", "str::trim_start", "str::trim_end_matches", "str::trim_matches", "str::trim_start_matches"):
            for p in src.args[2:]:
                text = "".join(x.args[0] if x.op == "str" else chr(x.args[0]) if x.op == "int" else "?" for x in (p.args if p.op == "arr" else [p]))
                decided("?" not in text, "text analyzed: %s" % show(line, 5))
                require(not text.strip(), "%r is cut off the text analyzed" % text)
            src = src.args[1]
        l = st.get("loop")
        if l is None:
            if src.op == "f":
                src = src.args[0]
            ok = src.op == "idx" and src.args[1] is mk("k", st["lines"]) and any(src.args[0] is x for x in leaves(st["lines"].args[0].args[0]))
        else:
            if src.op == "app":
                m = src.args[0]
                if m.op == "mu" and m in l.steps and any(lf.op == "app" and lf.args[0] is m for lf in leaves(l.steps[m])):
                    raise Violated("the text analyzed is all text read so far")
                ps = pieces(src, None) if m.op != "mu" else []
                decided(len(ps) == 1, "text analyzed: %s" % show(line, 5))
                src = ps[0]
            ok = src.op == "call" and src.args[0] == "io_read:read_line"
        if not ok and (src.op in ("slice", "idx", "str") or src.op == "call" and src.args[0] in ("str::split", "str::to_lowercase", "str::to_uppercase", "str::replace")):
            raise Violated("the text analyzed is %s" % show(line, 6))
        decided(ok, "text analyzed: %s" % show(line, 5))
        return src

    def printed(name):
        """the pieces printed for a line in the format"""
        A, T, X = per_line()
        if "loop" in st:
            t = of_format(st["loop"].steps[st["base"]], A, name)
            ps = pieces(t, st["base"])
        else:
            t = of_format(st["raw"] if "raw" in st else command("Tokenize")[0].final("stdout"), A, name)
            ps = pieces(t, None)
            decided(len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][1] is st["lines"], "output is %s" % text_of(ps))
            tree = ps[0][2]
            decided(tree.op == "seq", "output for a line is %s" % show(tree, 5))
            out = []
            for e in tree.args:
                x = e.args[0]
                if e.op == "spl":
                    decided(x.op == "coll", "output for a line is %s" % show(tree, 5))
                    out.append(("each", x.args[0], x.args[1]))
                else:
                    out += sub_pieces(x)
            ps = joined(out)
        sub_ = lambda t: subst(t, st["all"])
        return [p if isinstance(p, str) else ("each", sub_(p[1]), sub_(p[2])) if isinstance(p, tuple) else sub_(p) for p in ps]

    def of_format(t, A, name):
        f = arg(A, "output_format")
        for n in FORMATS:
            t = assume_all(t, eq(f, STR(n)) if n == name else NOT(eq(f, STR(n))))
        return t

    def lines():
        A, T, X = per_line()
        src = source(T)
        if "loop" in st:
            l = st["loop"]
            rd = src.args[1]
            decided(rd in l.steps, "lines are read from %s" % show(rd, 4))
            size = [u for b in l.brk for u in subterms(b) if u.op == "call" and u.args[0] == "io:read_line"]
            for b in l.brk:
                if b is FALSE:
                    continue
                decided(size, "reading ends if %s" % show(b, 5))
                n = field(size[0], "0", "Ok")
                x = assume_all(assume_all(b, NOT(zero(n))), pos(n))
                if x is not FALSE:
                    un = [u for u in vocab(x) if u not in KNOWN and not u.startswith("io") and u not in vocab(T)]
                    decided(not un, "reading ends if %s" % show(b, 6))
                    raise Violated("reading ends before the input does, if %s" % show(x, 6))
            decided(size, "reading never ends")
            for lf in leaves(st["raw"]):
                x = lf.args[0] if lf.op == "fin" else lf
                decided(x is st["base"] or lf is STR(""), "output is %s" % show(st["raw"], 5))
            init = l.inits[rd]
        else:
            init = st["lines"].args[0]
            decided(init.op == "over", "lines are those of %s" % show(init, 5))
            init = init.args[0]
        f = arg(A, "input_file")
        some = isv(f, OPTION, "Some")
        file = restrict(assume_all(init, some), some)
        other = restrict(assume_all(init, NOT(some)), NOT(some))
        is_in = lambda t: any(u.op == "call" and u.args[0].endswith("stdin") for u in subterms(t))
        opened = [u for u in subterms(file) if u.op == "call" and u.args[0] == "File::open"]
        require(opened, "with an input file the text is read from %s" % show(file, 5))
        same(opened[0].args[1], field(f, "0", "Some"), "file the text is read from")
        require(not is_in(file), "with an input file the text is read from standard input if %s" % show(mk("tup", *atoms(file)), 5))
        require(is_in(other), "without an input file the text is read from %s" % show(other, 5))
        return "every line of the input file or of standard input"

    def options():
        A, T, X = per_line()
        an = T.args[1]
        tk = field(an, "tokenizer")
        dic = field(tk, "dictionary")
        kind = arg(A, "dic_type")

        def conf(t, what):
            cs = {u.args[1] for u in subterms(t) if u.op == "call" and u.args[0].endswith(what)}
            require(cs, "the analyzer is built without %s" % what)
            decided(len(cs) == 1, "%s is called in %d ways" % (what, len(cs)))
            return cs.pop()
        d = conf(dic, "load_dictionary_from_config")
        same(field(d, "kind"), kind, "kind of the dictionary loaded")
        same(field(d, "path"), arg(A, "dic_dir"), "directory of the dictionary loaded")
        u = arg(A, "user_dic_file")
        has = isv(u, OPTION, "Some")
        ud = field(tk, "user_dictionary")
        with_, without = (restrict(assume_all(ud, g), g) for g in (has, NOT(has)))
        require(isv(without, OPTION, "Some") is FALSE, "without a user dictionary the tokenizer gets %s" % show(without, 5))
        require(isv(with_, OPTION, "Some") is TRUE, "the user dictionary is used only if %s" % show(isv(with_, OPTION, "Some"), 5))
        d = conf(with_, "load_user_dictionary_from_config")
        same(field(d, "kind"), kind, "kind of the user dictionary loaded")
        same(field(d, "path"), field(u, "0", "Some"), "file of the user dictionary loaded")
        same(field(tk, "mode"), arg(A, "mode"), "mode of the tokenizer")
        return "dictionary, user dictionary and mode"

    def filters(which, loader):
        def go():
            A, T, X = per_line()
            fs = field(T.args[1], which)
            given = arg(A, which)
            has = isv(given, OPTION, "Some")
            without = restrict(assume_all(fs, NOT(has)), NOT(has))
            fs = restrict(assume_all(fs, has), has)
            if without.op == "arr":
                require(not without.args, "without options the %s are %s" % (which.replace("_", " "), show(without, 5)))
            flags = [u for u in subterms(fs) if u.op == "call" and u.args[0].endswith(loader + "::load_from_cli_flag")]
            if not flags:
                others = [u.args[0] for u in subterms(fs) if u.op == "call" and u.args[0].endswith("load_from_cli_flag")]
                raise Violated("the %s of the options do not reach the analyzer, it gets %s" % (which.replace("_", " "), show(fs, 5)) + (" (by %s)" % others[0] if others else ""))
            decided(fs.op == "coll", "%s are %s" % (which, show(fs, 5)))
            L, tr = fs.args
            decided(tr.op == "seq", "%s are kept if %s" % (which, show(tr, 5)))
            require(len(tr.args) == 1 and tr.args[0].op == "it", "an option gives %d filters" % len(tr.args))
            it = tr.args[0].args[0]
            decided(it.op == "f" and it.args[0].op == "call", "a filter is %s" % show(it, 5))
            text = it.args[0].args[1]
            k = mk("k", L)
            at = [u for u in subterms(text) if u.op == "idx" and u.args[1] is k]
            decided(len(at) == 1 and at[0] is text, "a filter is loaded from %s" % show(text, 5))
            src = text.args[0]
            if src.op == "call" and src.args[0] in ("reversed", "sorted") or src.op == "slice":
                raise Violated("%s are loaded for %s" % (which, show(src, 5)))
            asked = {u for u in subterms(src) if u.op == "f" and u.args[0] is A}
            decided(asked, "%s are loaded for %s" % (which, show(src, 5)))
            require(asked == {given}, "%s are loaded for %s" % (which, show(src, 7)))
            if L.args[0] is not mk("over", src):
                same(loop_len(L), length(src), "number of %s" % which)
            return "one filter per option, in order"
        return go

    def per_token(p, T, what):
        require(isinstance(p, tuple), "%s: %s is printed for the tokens" % (what, text_of([p])))
        L = p[1]
        toks = field(T, "0", "Ok")
        if L.args[0] is not mk("over", toks):
            src = L.args[0]
            decided(src.op == "over", "%s: tokens printed are %s" % (what, show(src, 5)))
            same(norm(src), norm(mk("over", toks)), "tokens printed in %s" % what)
        return L, index(toks, mk("k", L)), p[2]

    def expect(ps, want, what):
        """pieces printed against those expected"""
        if len(ps) != len(want) or any(isinstance(a, str) != isinstance(b, str) for a, b in zip(ps, want)):
            odd = [p for p in ps if not isinstance(p, (str, tuple)) and (unresolved(p) is not None or vocab(p) - KNOWN - {"slice::join"})]
            odd = [p for p in odd if not any(isinstance(b, str) is False and not isinstance(b, tuple) and p is b for b in want)]
            decided(not odd, "%s: %s" % (what, text_of(ps)))
            raise Violated("%s prints %s" % (what, text_of(ps)))
        for a, b in zip(ps, want):
            if isinstance(b, str):
                require(a == b, "%s prints %r where %r belongs" % (what, a, b))
            elif a is not b:
                same(a, b, what, extra_vocab=("slice::join",))

    def mecab():
        A, T, X = per_line()
        ps = printed("mecab")
        ps = [p for p in ps]
        require(ps and isinstance(ps[0], tuple), "MeCab format prints %s first" % text_of(ps[:1]))
        L, tok, tree = per_token(ps[0], X, "MeCab format")
        if tree.op == "cond":
            raise Violated("MeCab format prints a token differently if %s" % show(mk("tup", *atoms(tree)), 6))
        expect(body(tree), [field(tok, "text"), "\t", mk("call", "slice::join", field(tok, "details"), STR(",")), "\n"], "a token in MeCab format")
        expect(ps[1:], ["EOS\n"], "the end of a line in MeCab format")
        return text_of(ps)

    def wakati():
        A, T, X = per_line()
        ps = printed("wakati")
        toks = field(X, "0", "Ok")
        require(ps, "word-separated format prints nothing")
        p = ps[0]
        if not isinstance(p, tuple) and not isinstance(p, str) and p.op == "call" and p.args[0] in ("slice::join", "Itertools::join"):
            x = p.args[1]
            decided(x.op == "coll" and x.args[1].op == "seq" and len(x.args[1].args) == 1, "words printed: %s" % show(x, 5))
            L, tok, tree = per_token(("each", x.args[0], x.args[1]), X, "word-separated format")
            expect(body(tree), [field(tok, "text")], "a word")
            expect([p.args[2].args[0] if lit(p.args[2]) else p.args[2]], [" "], "between words")
            expect(ps[1:], ["\n"], "the end of a line in word-separated format")
            return text_of(ps)
        L, tok, tree = per_token(p, X, "word-separated format")
        k = mk("k", L)
        last = zero(sub(sub(length(toks), k), INT(1)))
        more = pos(sub(sub(length(toks), k), INT(1)))
        first = zero(k)
        text = field(tok, "text")
        rest = ps[1:]

        def at(*gs):
            t = tree
            for g in gs:
                t = restrict(assume_all(t, g), g)
            decided(t.op == "seq", "a word is printed differently if %s" % show(mk("tup", *atoms(t)), 6))
            return body(t)

        def line_of(n):
            """the pieces of a line of n tokens, each text as its number"""
            out = []
            for i in range(n):
                t = subst(subst(tree, {text: mk("par", "text")}), {k: INT(i)})
                t = subst(t, {length(toks): INT(n)})
                if t.op != "seq":
                    return None
                out += [i if p is mk("par", "text") else p for p in body(t)]
            out = out + rest
            return joined(out) if all(isinstance(p, (str, int)) for p in out) else None
        for n in (1, 2, 3, 4):
            x = line_of(n)
            want = joined([p for i in range(n) for p in ([" "] if i else []) + [i]] + ["\n"])
            if x is not None and x != want:
                raise Violated("word-separated format prints %s for a line of %d tokens" % (" + ".join(repr(p) if isinstance(p, str) else "text %d" % (p + 1) for p in x), n))
        # position within the line: a separator before all but the first or after all but the last
        cases = {"only": (first, last, NOT(more)), "first": (first, NOT(last), more), "middle": (NOT(first), NOT(last), more, pos(k)), "last": (NOT(first), last, NOT(more), pos(k))}
        got = {n: at(*g) for n, g in cases.items()}
        bad = [n for n, x in got.items() if text not in x]
        for n, x in got.items():
            decided(all(isinstance(p, str) or p is text for p in x) or not bad, "a word is printed as %s" % text_of(x))
        require(not bad, "word-separated format prints %s for the %s token" % (text_of(got[bad[0]]) if bad else "", bad[0] if bad else ""))
        line = lambda ns: joined([p for n in ns for p in got[n]] + [x for x in rest])
        for ns in (("only",), ("first", "last"), ("first", "middle", "last")):
            want = joined([p for i, n in enumerate(ns) for p in ([" "] if i else []) + [text]] + ["\n"])
            decided(all(isinstance(x, str) or not isinstance(x, tuple) and unresolved(x) is None and vocab(x) <= KNOWN | {"slice::join"} for x in line(ns)), "word-separated format prints %s" % text_of(ps))
            require(line(ns) == want, "word-separated format prints %s for a line of %d tokens" % (text_of(line(ns)), len(ns)))
        return text_of(ps)

    def json():
        A, T, X = per_line()
        ps = printed("json")
        require(ps, "JSON format prints nothing")
        js = [p for p in ps if not isinstance(p, (str, tuple))]
        decided(len(js) == 1, "JSON format prints %s" % text_of(ps))
        require(not any(isinstance(p, str) and p.strip() for p in ps), "JSON format prints %s" % text_of(ps))
        v = js[0]
        while v.op == "f":
            v = v.args[0]
        decided(v.op == "call" and v.args[0] in ("serde_json::to_string_pretty", "serde_json::to_string"), "JSON format prints %s" % text_of(ps))
        x = v.args[1]
        if x.op == "slice":
            raise Violated("only %s is printed in JSON format" % show(x, 5))
        decided(x.op == "coll", "JSON format prints %s" % show(x, 5))
        if x.args[1].op == "cond":
            raise Violated("a token is left out or printed differently in JSON format if %s" % show(mk("tup", *atoms(x.args[1])), 6))
        L, tok, tree = per_token(("each", x.args[0], x.args[1]), X, "JSON format")
        decided(len(tree.args) == 1 and tree.args[0].op == "it", "a token is printed as %s" % show(tree, 5))
        o = tree.args[0].args[0]
        decided(o.op == "adt" and o.args[1] == "Object" and field(o, "0", "Object").op == "call" and field(o, "0", "Object").args[0] == "json_map", "a token is printed as %s" % show(o, 5))
        m = field(o, "0", "Object").args[1:]
        got = {m[i].args[0]: m[i + 1] for i in range(0, len(m), 2)}
        for n in ("text", "details", "byte_start", "byte_end", "word_id"):
            require(n in got, "tokens have no %s in JSON format" % n)
            g = got[n]
            same(field(g, "v") if g.op == "adt" and g.args[0] == "Json" else g, field(tok, n), "%s in JSON format" % n)
        return "%d keys per token" % len(got)

    def formats():
        A, T, X = per_line()
        r, _ = command("Tokenize")
        f = arg(A, "output_format")
        t = r.ret
        for n in FORMATS:
            x = of_format(t, A, n)
            require(isv(x, RESULT, "Ok") is TRUE, "format %s is rejected" % n)
            t = assume_all(t, NOT(eq(f, STR(n))))
        o = isv(t, RESULT, "Err")
        if o is not TRUE:
            un = [a for a in atoms(o) if unresolved(a) is not None]
            decided(not un, "an unknown format gives %s" % show(t, 5))
            raise Violated("a format that is none of %s is accepted" % ", ".join(FORMATS))
        return ", ".join(FORMATS)

    def build():
        r, A = command("Build")
        user = as_bool(arg(A, "build_user_dic"))
        t = r.ret
        src, dest = arg(A, "src_path"), arg(A, "dest_path")

        def call(t, name):
            cs = [u for u in subterms(t) if u.op == "call" and u.args[0].endswith("DictionaryBuilder::" + name)]
            require(cs, "%s is not called" % name)
            decided(len(set(cs)) == 1, "%s is called in %d ways" % (name, len(set(cs))))
            b = cs[0].args[1]
            rs = [u for u in subterms(b) if u.op == "call" and u.args[0].endswith("resolve_builder")]
            decided(rs, "the builder is %s" % show(b, 5))
            same(rs[0].args[1], arg(A, "dic_type"), "kind of the builder")
            return cs[0]
        x = restrict(assume_all(t, NOT(user)), NOT(user))
        k = call(x, "build_dictionary")
        same(k.args[2], src, "source of the dictionary built")
        same(k.args[3], dest, "destination of the dictionary built")
        x = restrict(assume_all(t, user), user)
        k = call(x, "build_user_dictionary")
        same(k.args[2], src, "source of the user dictionary built")
        out = k.args[3]
        require(dest in set(subterms(out)), "the user dictionary is written to %s" % show(out, 5))
        if not any(u is STR("bin") for u in subterms(out)):
            ext = [m for m in subterms(out) if m.op == "mut" and m.args[0] == "PathBuf::set_extension"]
            if ext:
                raise Violated("the user dictionary is written to %s, which is not loaded as a binary one" % show(out, 6))
            decided(not (vocab(out) - KNOWN - {"Path::join", "Path::file_name", "Path::file_stem", "PathBuf::set_extension", "Path::with_extension"}), "the user dictionary is written to %s" % show(out, 6))
            raise Violated("the user dictionary is written to %s, which is not loaded as a binary one" % show(out, 6))
        require(src in set(subterms(out)), "the user dictionary is written to %s" % show(out, 6))
        return "%s; %s" % (show(k.args[3], 6), "source and destination")

    def listed():
        r, A0 = r_list()
        out = r.final("stdout")
        ps = pieces(out, None)
        require(ps, "the list is not printed")
        decided(len(ps) == 1 and isinstance(ps[0], tuple), "the list is %s" % text_of(ps))
        L, tree = ps[0][1:]
        rk = c.analyse("DictionaryKind::contained_variants")
        names = c.analyse("DictionaryKind::as_str")
        ls = {l.L.args[0] for l in rk.loops} | {mk("over", rk.ret)}
        src = L.args[0]
        if src.op == "range":
            same(loop_len(L), length(rk.ret), "number of kinds listed")
            return
        decided(src.op == "over", "kinds listed: %s" % show(src, 4))
        require(src in ls or any(norm(src) is norm(x) for x in ls), "kinds listed: %s" % show(src, 4))
        kind = index(src.args[0], mk("k", L))
        if tree.op == "cond":
            flag = rk.ret
            raise Undecided("kinds listed: %s" % show(tree, 5))
        b = body(tree)
        for x in b:
            if not isinstance(x, (str, tuple)) and any(u.op == "adt" and u.args[0] == "Dbg" for u in subterms(x)):
                raise Violated("a kind is printed in debug format")
        p0 = fn_params(c, names.key)[0]
        expect(b, [subst(names.ret, {mk("par", p0): kind}), "\n"], "a kind in the list")
        return "every contained kind"

    def r_list():
        def mode(u, enum):
            if enum == RESULT:
                return "Ok"
            if enum.endswith("Commands") and enum.startswith("lindera"):
                return "List"
            return None
        return c.analyse("lindera::main", mode, opaque=ops), None

    def failing(cmd, call, what, given=None):
        def go():
            def mode(u, enum):
                if enum == RESULT:
                    return "Err" if u.op == "call" and (u.args[0] == call or u.args[0].endswith("::" + call)) else "Ok"
                if enum.endswith("Commands") and enum.startswith("lindera"):
                    return cmd
                return None
            r = c.analyse("lindera::main", mode, opaque=ops)
            _, A = command(cmd)
            t = r.ret
            if cmd == "Tokenize":
                t = of_format(t, A, "mecab")
            if given:
                g = given(A)
                t = restrict(assume_all(t, g), g)
            is_call = lambda u: u.op == "call" and (u.args[0] == call or u.args[0].endswith("::" + call))
            t = maptree(t, lambda x: mk("adt", RESULT, "Err", (("0", field(x, "0", "Err")),)) if is_call(x) else x)
            o = isv(t, RESULT, "Ok")

            def paths(x, seen):
                if x is FALSE:
                    return
                if x.op != "cond":
                    yield seen
                    return
                yield from paths(x.args[1], seen + [x.args[0]])
                yield from paths(x.args[2], seen + [x.args[0]])
            for p in paths(o, []):
                a = [u for x in p for u in subterms(x)]
                if any(u.op == "exitby" or u.op == "call" and u.args[0] == "exitby" for u in a):
                    continue
                un = [x for x in p if unresolved(x) is not None]
                decided(not un, "%s fails: the result is %s" % (what, show(t, 6)))
                raise Violated("the command succeeds although %s fails, result %s" % (what, show(t, 6)))
            return show(t, 5)
        return go

    if c.ob("lines", lines):
        c.ob("options", options)
        c.ob("character filters", filters("character_filters", "CharacterFilterLoader"))
        c.ob("token filters", filters("token_filters", "TokenFilterLoader"))
        c.ob("MeCab format", mecab)
        c.ob("word-separated format", wakati)
        c.ob("JSON format", json)
        c.ob("formats", formats)
        some = lambda n: lambda A: isv(arg(A, n), OPTION, "Some")
        for call, what, given in (
                ("load_dictionary_from_config", "loading the dictionary", None),
                ("load_user_dictionary_from_config", "loading the user dictionary", some("user_dic_file")),
                ("File::open", "opening the input file", some("input_file")),
                ("CharacterFilterLoader::load_from_cli_flag", "loading a character filter", some("character_filters")),
                ("TokenFilterLoader::load_from_cli_flag", "loading a token filter", some("token_filters")),
                ("Analyzer::analyze", "analyzing a line", None),
                ("io:read_line", "reading", None)):
            if call != "io:read_line" or "loop" in st:
                c.ob("error " + what, failing("Tokenize", call, what, given))
    c.ob("build", build)
    user = lambda A: as_bool(arg(A, "build_user_dic"))
    c.ob("error resolving the builder", failing("Build", "resolve_builder", "resolving the builder"))
    c.ob("error building a dictionary", failing("Build", "build_dictionary", "building a dictionary", lambda A: NOT(user(A))))
    c.ob("error building a user dictionary", failing("Build", "build_user_dictionary", "building a user dictionary",
         lambda A: AND(user(A), isv(mk("call", "Path::file_name", arg(A, "src_path")), OPTION, "Some"))))
    c.ob("list", listed)
