"""What the formatter writes for a syntax tree with holes, by abstract interpretation of the formatter.

The document library is modelled: documents are terms, and writing one gives a text of characters, lexical pieces and holes.
"""
import functional, grammar
from absint import *
from functional import vec, listed, concat, parts_of, temporary, tuple_of, val, as_iterator, drain, Ctx, iterator
from grammar import TEXT, POSITION

M = {}


def on(*names):
    def decorate(f):
        for n in names:
            M[n] = f
        return f
    return decorate


def doc(kind, *xs):
    return ("doc", kind) + xs


EMPTY = doc("string", ("str", ""))


def document(I, st, v):
    v = val(I, st, v)
    if v[0] == "doc":
        return v
    if v[0] in TEXT or v[0] == "hole":
        return doc("string", v)
    raise Limit(f"not a document: {v[:3]}")


def is_broken(I, d):
    k = d[1]
    if k == "break":
        return d[2] or is_broken(I, d[3])
    if k in ("indent", "offside"):
        return is_broken(I, d[2])
    if k == "sequence":
        return any([is_broken(I, x) for x in d[2]])
    if k == "string" and d[2][0] == "hole":
        return I.broken
    return False


def count_lines(I, d):
    k = d[1]
    if k == "break":
        return count_lines(I, d[3]) if d[2] else 0
    if k in ("indent", "offside"):
        return count_lines(I, d[2])
    if k == "line":
        return 1
    if k == "sequence":
        return sum(count_lines(I, x) for x in d[2])
    if k == "string" and d[2][0] == "hole":
        return 2 if I.broken else 0
    return 0


def is_empty(d):
    k = d[1]
    if k == "break":
        return is_empty(d[3])
    if k in ("indent", "offside"):
        return is_empty(d[2])
    if k == "sequence":
        return all(is_empty(x) for x in d[2])
    return d[2] == ("str", "") if k in ("string", "suffix") else False


def write(d, spaces):
    """A document as a list of items."""
    out, state = [], {"indent": 0, "suffixes": []}

    def text(v):
        for p in parts_of(v):
            out.extend(p[1] if p[0] == "str" else [p])

    def flush():
        out.extend(" " * state["indent"])
        state["indent"] = 0

    def go(d, indent, broken):
        k = d[1]
        if k == "break":
            go(d[3], indent, d[2])
        elif k == "indent":
            go(d[2], indent + spaces, broken)
        elif k == "offside":
            go(d[2], indent, broken)
        elif k == "line":
            if broken:
                for s in state["suffixes"]:
                    text(s)
                state["suffixes"] = []
                out.append("\n")
                state["indent"] = indent
            else:
                out.append(" ")
        elif k == "suffix":
            if d[2] != ("str", ""):
                flush()
            state["suffixes"].append(d[2])
        elif k == "sequence":
            for x in d[2]:
                go(x, indent, broken)
        else:
            if d[2] != ("str", ""):
                flush()
            text(d[2])
    go(d, 0, True)
    return out, state["suffixes"]


def ret(st, v):
    return [(st, "return", v)]


def builder(*names):
    return on(*["mfmt::build::builder::Builder::" + n for n in names])


@on("bumpalo::Bump::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("str", "allocator"))


@builder("new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, rec("mfmt::Builder", "Builder", []))


@builder("sequence")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[1])
    if i is None:
        return None
    return [(s, k, doc("sequence", tuple(document(I, s, x) for x in xs)) if k == "return" else xs) for s, k, xs in drain(Ctx(I, frame, t, stack), st, i)]


def strings(make):
    def m(I, st, frame, f, args, t, stack):
        i = as_iterator(I, st, args[1])
        if i is None:
            return None
        return [(s, k, make(concat([val(I, s, x) for x in xs])) if k == "return" else xs) for s, k, xs in drain(Ctx(I, frame, t, stack), st, i)]
    return m


for n, make in (("strings", lambda v: doc("string", v)), ("line_suffixes", lambda v: doc("suffix", v)), ("allocate_str", lambda v: v)):
    M["mfmt::build::builder::Builder::" + n] = strings(make)
for n, make in (("indent", lambda d: doc("indent", d)), ("flatten", lambda d: doc("break", False, d)), ("r#break", lambda d: doc("break", True, d)), ("break", lambda d: doc("break", True, d)),
                ("offside", lambda d: doc("offside", d))):
    def wrapper(make):
        return lambda I, st, frame, f, args, t, stack: ret(st, make(document(I, st, args[1])))

    def free(make):
        return lambda I, st, frame, f, args, t, stack: ret(st, make(document(I, st, args[0])))
    M["mfmt::build::builder::Builder::" + n] = wrapper(make)
    M["mfmt::build::" + n] = M["mfmt::" + n] = free(make)


@builder("allocate")
def _(I, st, frame, f, args, t, stack):
    return ret(st, temporary(st, val(I, st, args[1])))


@on("mfmt::build::flatten_if", "mfmt::flatten_if")
def _(I, st, frame, f, args, t, stack):
    d = document(I, st, args[1])
    return [(s, "return", doc("break", not truth or is_broken(I, d), d)) for s, truth in functional.branches(I, st, args[0])]


@on("mfmt::build::line", "mfmt::line")
def _(I, st, frame, f, args, t, stack):
    return ret(st, doc("line"))


@on("mfmt::build::empty", "mfmt::empty")
def _(I, st, frame, f, args, t, stack):
    return ret(st, EMPTY)


@on("mfmt::build::line_suffix", "mfmt::line_suffix")
def _(I, st, frame, f, args, t, stack):
    return ret(st, doc("suffix", val(I, st, args[0])))


@on("mfmt::build::sequence", "mfmt::sequence")
def _(I, st, frame, f, args, t, stack):
    place, xs = functional.elements(I, st, args[0])
    return None if xs is None else ret(st, doc("sequence", tuple(document(I, st, x) for x in xs)))


@on("mfmt::utility::is_broken")
def _(I, st, frame, f, args, t, stack):
    return ret(st, integer(int(is_broken(I, document(I, st, args[0]))), "bool"))


@on("mfmt::utility::is_empty")
def _(I, st, frame, f, args, t, stack):
    return ret(st, integer(int(is_empty(document(I, st, args[0]))), "bool"))


@on("mfmt::utility::count_lines")
def _(I, st, frame, f, args, t, stack):
    return ret(st, integer(count_lines(I, document(I, st, args[0])), "usize"))


@on("mfmt::options::FormatOptions::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, rec("mfmt::FormatOptions", "FormatOptions", [("0", args[0])]))


@on("mfmt::format::format", "mfmt::format")
def _(I, st, frame, f, args, t, stack):
    d = document(I, st, args[0])
    n = [u for u in subterms(args[2]) if u[0] == "int"]
    items, lost = write(d, n[0][1] if n else 2)
    place = args[1]
    while place[0] == "ref" and I.load(st, place[1])[0] == "ref":
        place = I.load(st, place[1])
    old = I.load(st, place[1])
    I.store(st, place[1], concat(parts_of(old) + [("str", x) if isinstance(x, str) else x for x in items]))
    if lost:
        st.event("lost", suffixes=tuple(lost), ln=t["ln"], fn=frame["body"]["path"])
    return ret(st, rec(RESULT, "Ok", [("0", UNIT)]))


def into(I, st, frame, f, args, t, stack):
    targs = f[3]
    if len(targs) >= 2 and targs[1].split("<")[0] in ("mfmt::Document", "mfmt::document::Document"):
        return ret(st, document(I, st, args[0]))
    return grammar.NOM["core::convert::Into::into"](I, st, frame, f, args, t, stack)


M["core::convert::Into::into"] = M["<T as core::convert::Into<U>>::into"] = into


@on("<mfmt::document::Document<'a> as core::convert::From<&'a str>>::from", "<mfmt::document::Document as core::convert::From<&str>>::from", "<mfmt::Document as core::convert::From<&str>>::from")
def _(I, st, frame, f, args, t, stack):
    return ret(st, document(I, st, args[0]))


@on("core::convert::From::from")
def _(I, st, frame, f, args, t, stack):
    if f[3] and f[3][0].split("<")[0].startswith("mfmt::"):
        return ret(st, document(I, st, args[0]))
    m = functional.M.get("core::convert::From::from")
    return m and m(I, st, frame, f, args, t, stack)


class LayoutInterp(Interp):
    def __init__(self, crates, **kw):
        models = dict(functional.M)
        models.update(grammar.NOM)
        models.update(M)
        super().__init__(crates, models=models, max_depth=80, unroll=80, max_paths=20000, **kw)
        self.recursive = True
        self.silent = frozenset(["drop"])
        self.follow = 20000
        self.broken = False
        self.passed = set()
        self.home = crates[0].name

    def terminator(self, st, frame, t, stack):
        """A hole stands for a node which is not treated specially: most kinds of nodes, when they are told apart."""
        if t["k"] == "switch" and len(t["cases"]) >= 1:
            v = self.operand(st, frame, t["a"])
            if v[0] not in ("int", "op", "un", "call", "overflow", "cast") and any(u[0] == "hole" for u in subterms(v)):
                targets = [b for _, b in t["cases"]]
                if frame["body"]["mir"]["blocks"][t["else"]]["t"]["k"] != "unreachable":
                    return [(st, "goto", t["else"])]
                most = max(targets, key=targets.count)
                if targets.count(most) > 1:
                    return [(st, "goto", most)]
        return super().terminator(st, frame, t, stack)

    def is_context(self, t):
        """Whether a type is one of the formatter's or of the document library's own."""
        while t.startswith("&"):
            t = t[1:].split(" ", 1)[1] if t.startswith("&'") else t[1:]
            t = t.removeprefix("mut ")
        return t.split("::")[0] in (self.home, "mfmt", "bumpalo")

    def call(self, st, frame, f, args, t, stack):
        if f[0] == "fn" and args:
            body = self.resolve(frame, f)
            if body is not None and "mir" in body:
                out = body["crate"].types[body["mir"]["locals"][0]]
                short = out.split("<")[0]
                if short in ("mfmt::document::Document", "mfmt::Document"):
                    data = [a for a, l in zip(args, body["mir"]["locals"][1:]) if not self.is_context(body["crate"].types[l])]
                    data = [v for v in (val(self, st, a) for a in data) if v[0] != "int" and not (v[0] == "rec" and not v[4])]
                    if len(data) == 1:
                        v = data[0]
                        if v[0] == "hole":
                            self.passed.add(body["path"])
                            return ret(st, doc("string", v[:3] + (0,)))
                p = grammar.position_of_hole(self, st, frame, f, args, self.broken)
                if p is not None:
                    return p
        return super().call(st, frame, f, args, t, stack)


class Layout:
    def __init__(self, crates):
        self.crates = crates
        self.I = LayoutInterp(crates)
        self.fresh = 10 ** 6

    def run(self, path, args, broken=False):
        """The traces of a formatter function: (state, kind, items)."""
        body = None
        for c in self.crates:
            body = body or c.body(path)
        self.I.broken, self.I.paths = broken, 0
        st = State()
        self.fresh += 10000
        st.fresh = self.fresh
        refs = [temporary(st, a) for a in args]
        out = []
        for s, k, v in self.I.run(body, refs, st, (body["path"],)):
            items = []
            if k == "return":
                v = val(self.I, s, v)
                for p in parts_of(v):
                    items.extend(p[1] if p[0] == "str" else [p])
            out.append((s, k, items))
        return out
