"""The grammar of the language, read off the type-checked parser by abstract interpretation.

Parser functions are interpreted with nom's combinators as constructors of grammar terms.  A grammar is used in two ways:
`Generator` lists the derivations of a nonterminal, each with the syntax tree which the parser's own actions build for it,
and `Recognizer` decides what the parser makes of a text.  Texts consist of characters, lexical pieces of unknown
spelling, and holes: pieces which stand for any expression, type, block or function.
"""
import functional, itertools, re
from absint import *
from functional import vec, listed, concat, parts_of, temporary, tuple_of, val, branches

IN = "in"
DIRECT = {"alpha1", "alpha0", "alphanumeric1", "alphanumeric0", "digit1", "digit0", "hex_digit1", "multispace0", "multispace1", "space0", "space1",
          "recognize_float", "anychar", "newline", "line_ending", "not_line_ending", "rest", "eof", "crlf", "tab", "double"}
POSITION = "position::position::Position"


class Unsupported(Limit):
    pass


def last(path):
    return strip(path).split("::")[-1]


class ParserInterp(Interp):
    """Interprets parser functions; running a parser is left to an engine."""

    def __init__(self, crates, **kw):
        models = dict(functional.M)
        models.update(NOM)
        super().__init__(crates, models=models, max_depth=80, unroll=60, max_paths=20000, **kw)
        self.recursive = True
        self.silent = frozenset(["drop"])
        self.follow = 20000
        self.engine = None
        self.reads = set()

    def call(self, st, frame, f, args, t, stack):
        name = f[1] if f[0] == "fn" else None
        if f[0] == "ref":
            v = self.load(st, f[1])
            if v[0] in ("closure", "fn", "G"):
                return self.call(st, frame, v, args, t, stack)
        if f[0] == "G" and args and args[0][0] == IN:
            return self.engine.step(self, st, f, args[0])
        if name is not None and name.startswith("nom::") and not name.startswith("nom::internal::Parser::parse") and f[4] != "nom::internal::Parser::parse":
            if last(name) in DIRECT and args and args[0][0] == IN:
                return self.engine.step(self, st, ("fn", name, None, (), name, ()), args[0])
            return [(st, "return", ("G", last(name), tuple(args), tuple(f[3])))]
        if f[0] == "fn" and args:
            p = position_of_hole(self, st, frame, f, args)
            if p is not None:
                return p
        if args and args[0][0] == IN and f[0] in ("fn", "closure"):
            body = self.resolve(frame, f)
            if body is not None and "mir" in body and is_parser(body):
                return self.engine.step(self, st, f, args[0])
        return super().call(st, frame, f, args, t, stack)


def hole_of(v):
    """The hole a value is a part of, if any, and whether it is the hole itself."""
    inner = v
    while inner[0] in ("fld", "init", "down", "as", "load", "proj"):
        inner = inner[1]
        if not isinstance(inner, tuple):
            return None, False
        if inner and inner[0] in ("P", "S") and len(inner) > 1 and isinstance(inner[1], tuple):
            inner = inner[1]
    return (inner, inner is v) if inner[0] == "hole" else (None, False)


def position_of_hole(I, st, frame, f, args, broken=False):
    """Functions which give the position of a node give the place of the hole."""
    body = I.resolve(frame, f)
    if body is None or "mir" not in body:
        return None
    out = body["crate"].types[body["mir"]["locals"][0]]
    if not (out.startswith("&") and out.endswith(POSITION)):
        return None
    h, whole = hole_of(val(I, st, args[0]))
    if h is None:
        return None
    line = h[3] + (1 if broken and not whole else 0)
    inner = rec(POSITION + "Inner", "PositionInner", [("path", ("str", "")), ("line_number", integer(line, "usize")), ("column_number", integer(1, "usize")), ("line", ("str", ""))])
    return [(st, "return", temporary(st, rec(POSITION, "Position", [("0", inner)])))]


def is_parser(body):
    return body["crate"].types[body["mir"]["locals"][0]].startswith("core::result::Result<(nom_locate::LocatedSpan<")


def output(body):
    """The type a parser function yields."""
    t = parse_type(body["crate"].types[body["mir"]["locals"][0]])
    return show_type(t[1][0][1][1])


NOM = {}


def nom(*names):
    def decorate(f):
        for n in names:
            NOM[n] = f
        return f
    return decorate


@nom("nom::internal::Parser::parse")
def _(I, st, frame, f, args, t, stack):
    p = args[0]
    n = 0
    while p[0] == "ref" and n < 8:
        p, n = I.load(st, p[1]), n + 1
    return I.engine.step(I, st, p, args[1])


@nom("nom_locate::LocatedSpan::location_line")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return [(st, "return", integer(I.engine.line(v), "u32"))] if v[0] == IN else None


@nom("nom_locate::LocatedSpan::get_column", "nom_locate::LocatedSpan::get_utf8_column", "nom_locate::LocatedSpan::naive_get_utf8_column")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return [(st, "return", ("column", last(f[1]), v))] if v[0] == IN else None


@nom("nom_locate::LocatedSpan::get_line_beginning")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return [(st, "return", ("line_beginning", v))] if v[0] == IN else None


@nom("core::str::converts::from_utf8")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return [(st, "return", rec(RESULT, "Ok", [("0", v)]))]


@nom("nom_locate::LocatedSpan::fragment", "nom::traits::AsBytes::as_bytes", "<nom_locate::LocatedSpan<T, X> as nom::traits::AsBytes>::as_bytes")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return [(st, "return", v)] if v[0] in ("str", "text", "lex") else None


TEXT = ("str", "text", "lex", "pure")


@nom("core::convert::Into::into", "<T as core::convert::Into<U>>::into")
def _(I, st, frame, f, args, t, stack):
    targs = f[3]
    if len(targs) >= 2 and targs[0].startswith("impl ") and args[0][0] in ("rec", "hole") and args[0][2]:
        targs = (args[0][2],) + targs[1:]
    if args[0][0] in TEXT:
        return [(st, "return", args[0])]
    if len(targs) >= 2:
        head = targs[1].split("<")[0].split("::")[-1]
        if targs == ("&str", "alloc::string::String") or targs[0] == targs[1]:
            return [(st, "return", args[0])]
        if head in ("Rc", "Arc", "Box") and parse_type(targs[1])[1][0] == parse_type(targs[0]):
            return [(st, "return", args[0])]
        if head in ("Rc", "Arc", "Box", "Vec") and listed(args[0]) is not None:
            return [(st, "return", vec(listed(args[0])))]
    return MODELS["core::convert::Into::into"](I, st, frame, f, args, t, stack)


for n in ("alloc::sync::Arc::new", "alloc::rc::Rc::new", "alloc::rcs::rc::Rc::new", "alloc::rcs::arc::Arc::new", "alloc::rcs::sync::Arc::new", "alloc::boxed::Box::new",
          "<alloc::rcs::rc::Rc<T> as core::convert::From<T>>::from", "<alloc::rcs::sync::Arc<T> as core::convert::From<T>>::from", "<alloc::boxed::Box<T> as core::convert::From<T>>::from"):
    NOM[n] = functional.identity
for n in ("<alloc::rcs::rc::Rc<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::rcs::sync::Arc<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref"):
    NOM[n] = functional.identity


@nom("core::ops::deref::Deref::deref")
def _(I, st, frame, f, args, t, stack):
    if f[3] and f[3][0].startswith("nom_locate::LocatedSpan") or "LocatedSpan" in f[1]:
        # To a reference to the text, which is a reference itself.
        return [(st, "return", temporary(st, val(I, st, args[0])))]
    r = functional.M["core::ops::deref::Deref::deref"](I, st, frame, f, args, t, stack)
    if r is None and args[0][0] == "ref":
        return [(st, "return", args[0])]
    return r


@nom("core::str::<impl str>::starts_with")
def _(I, st, frame, f, args, t, stack):
    v, p = val(I, st, args[0]), val(I, st, args[1])
    alternatives = [val(I, st, x) for x in listed(p)] if listed(p) is not None else [p]
    alternatives = [chr(x[1]) if x[0] == "int" else x[1] if x[0] == "str" else None for x in alternatives]
    first = parts_of(v)[0] if v[0] in TEXT and parts_of(v) else v
    if first[0] == "lex" and None not in alternatives and all(len(a) == 1 for a in alternatives):
        # A number by itself has no sign: signs are characters of their own.
        chars = [c for c in first_chars(first[2]) if not (c in "+-" and "recognize_float" in repr(first[2]))]
        if not set(chars) & set(alternatives):
            return [(st, "return", integer(0, "bool"))]
    if first[0] == "str" and None not in alternatives and all(len(a) <= len(first[1]) or v[0] == "str" for a in alternatives):
        return [(st, "return", integer(int(first[1].startswith(tuple(alternatives))), "bool"))]
    return functional.M["core::str::<impl str>::starts_with"](I, st, frame, f, args, t, stack)


def okay(at, v):
    return rec(RESULT, "Ok", [("0", tuple_of(at, v))])


def remembered(f):
    """Remembers the results of a method with one argument."""
    def g(self, p):
        memo = self.__dict__.setdefault("_" + f.__name__, {})
        if p not in memo:
            memo[p] = f(self, p)
        return memo[p]
    return g


# ---- terms ----------------------------------------------------------------------------------------------------------
class Grammar:
    def __init__(self, crates):
        self.crates = crates
        self.I = ParserInterp(crates)
        self.I.engine = self
        self.aliases, self.names, self.frame = {}, {}, None
        self.t = {"ln": 0, "to": 0, "a": []}
        self.fresh = 1
        self.referrers = {}

    # What running a parser means while grammar terms are being built.
    def step(self, I, st, p, at):
        return [(st, "return", ("tail", p, at))]

    def line(self, v):
        return 0

    def state(self):
        st = State()
        self.I.paths = 0
        self.fresh += 1000
        st.fresh = self.fresh
        return st

    def body(self, p):
        return self.I.resolve(self.frame_of(p), p)

    def frame_of(self, p):
        c = self.crates[0]
        if p[0] == "fn":
            for x in self.crates:
                if p[2] and x.by_key.get(p[2], {}).get("path") == p[1]:
                    c = x
        return {"id": 0, "crate": c, "subst": {}, "body": {"path": "grammar", "crate": c, "mir": {"locals": [0] * 9}}}

    def alias(self, p):
        """The term a parser function or closure stands for, when it does nothing but run that; else None."""
        if p in self.aliases:
            return self.aliases[p]
        self.aliases[p] = None
        engine, self.I.engine = self.I.engine, self
        try:
            body = self.body(p)
            traces = self.invoke(p, [(IN, "?")])
            if len(traces) == 1 and traces[0][1] == "return" and traces[0][2][0] == "tail" and traces[0][2][2] == (IN, "?"):
                self.aliases[p] = traces[0][2][1]
        finally:
            self.I.engine = engine
        return self.aliases[p]

    def invoke(self, p, args, st=None):
        st = st or self.state()
        body = self.body(p)
        if body is None:
            raise Unsupported(f"no body for {p[1]}")
        frame = self.frame_of(p)
        if p[0] == "closure":
            return self.I.run_closure(st, p, body, args, (body["path"],), frame)
        return self.I.run(body, args, st, (body["path"],), p[5] if len(p) > 5 else ())

    def act(self, f, args, st=None):
        """The results of an action: (state, value)."""
        st = st or self.state()
        out = []
        frame = self.frame_of(f)
        for s, k, v in Interp.call(self.I, st, frame, f, args, self.t | {"a": [{"o": "rc"}] * len(args)}, ()):
            if k == "return":
                out.append((s, v))
        return out

    def into(self, targs, v):
        f = ("fn", "core::convert::Into::into", None, tuple(targs), "core::convert::Into::into", ())
        return [x for _, x in self.act(f, [v])]

    # ---- the term language: kinds with their sub-terms --------------------------------------------------------------
    @remembered
    def node(self, p):
        """A term as (kind, ...) with parsers inside still as values."""
        if p[0] == "rec" and p[1] is None and p[2] in ("tuple", "array", "vec"):
            return ("seq", [x for _, x in p[4]])
        if p == UNIT:
            return ("seq", [])
        if p[0] == "closure":
            return ("ref", p)
        if p[0] == "fn":
            if p[1].startswith("nom::") and last(p[1]) in DIRECT:
                return ("class", last(p[1]))
            body = self.body(p)
            if body is not None and "mir" in body and is_parser(body):
                return ("ref", p)
            if body is not None:
                # A function which returns a parser.
                traces = [v for _, k, v in self.invoke(p, []) if k == "return"]
                if len(traces) == 1:
                    return self.node(traces[0])
            raise Unsupported(f"parser {p[1]}")
        if p[0] == "G":
            name, a = p[1], p[2]
            a = [self.value(x) for x in a]
            if name in ("context",):
                return ("wrap", name, a[1])
            if name in ("cut", "all_consuming", "complete", "peek", "not", "opt", "recognize", "consumed"):
                return (name, a[0])
            if name == "map":
                return ("map", a[0], a[1])
            if name in ("map_opt", "map_res", "and_then", "flat_map", "cond", "fold_many0", "fold_many1"):
                raise Unsupported(f"combinator {name}")
            if name == "value":
                return ("value", a[0], a[1])
            if name == "success":
                return ("success", a[0])
            if name == "verify":
                return ("verify", a[0], a[1])
            if name == "into":
                return ("into", a[0], p[3]) if len(a) == 1 else None
            if name == "alt":
                return ("alt", [x for _, x in a[0][4]])
            if name == "or":
                return ("alt", a)
            if name in ("pair", "and"):
                return ("seq", a)
            if name == "preceded":
                return ("pick", a, 1)
            if name == "terminated":
                return ("pick", a, 0)
            if name == "delimited":
                return ("pick", a, 1)
            if name == "separated_pair":
                return ("picks", a, (0, 2))
            if name in ("many0", "many1", "many0_count", "many1_count"):
                return ("many", a[0], int(name[4]), name.endswith("count"))
            if name == "count":
                if a[1][0] != "int":
                    raise Unsupported("count")
                return ("times", a[0], a[1][1])
            if name in ("separated_list0", "separated_list1"):
                return ("separated", a[0], a[1], int(name[-1]))
            if name == "tag":
                return ("tag", self.string(a[0]))
            if name == "char":
                return ("char", chr(a[0][1]))
            if name in ("one_of", "none_of"):
                return (name, self.string(a[0]))
            if name in DIRECT:
                return ("class", name)
            raise Unsupported(f"combinator {name}")
        raise Unsupported(f"parser {p[:2]}")

    def value(self, v):
        return v

    def string(self, v):
        if v[0] == "constant":
            raise Unsupported(f"text {v}")
        if v[0] == "int":
            return chr(v[1])
        if v[0] != "str":
            raise Unsupported(f"text {v[:2]}")
        return v[1]

    @remembered
    def children(self, p):
        n = self.node(p)
        out = []
        for x in n[1:]:
            for y in x if isinstance(x, list) else [x]:
                if isinstance(y, tuple) and y and (y[0] in ("G", "closure") or y[0] == "fn" or y[0] == "rec" and y[2] in ("tuple", "array")):
                    out.append(y)
        if n[0] == "map":
            out = out[:1]
        if n[0] == "verify":
            out = out[:1]
        if n[0] in ("value",):
            out = [n[2]]
        if n[0] == "into":
            out = [n[1]]
        if n[0] == "success":
            out = []
        return out

    @remembered
    def plain(self, p):
        """A term without the wrappers that change neither text nor value."""
        while True:
            if p[0] in ("closure", "fn"):
                try:
                    n = self.node(p)
                except Unsupported:
                    return p
                if n[0] != "ref":
                    return p
                a = self.alias(p)
                if a is None:
                    return p
                p = a
                continue
            if p[0] == "G" and p[1] == "context":
                p = p[2][1]
                continue
            if p[0] == "G" and p[1] == "cut":
                p = p[2][0]
                continue
            return p

    @remembered
    def charlevel(self, p):
        """Whether a term only looks at characters: no actions, no nonterminals with values of their own."""
        p = self.plain(p)
        if p[0] == "closure" or p[0] == "fn" and not p[1].startswith("nom::"):
            return False
        n = self.node(p)
        if n[0] in ("map", "verify", "into"):
            return False
        return all(self.charlevel(c) for c in self.children(p))

    @remembered
    def canonical(self, p):
        """A char-level term as a comparable value."""
        p = self.plain(p)
        n = self.node(p)
        if n[0] == "value":
            return self.canonical(n[2])
        return (n[0],) + tuple(x for x in n[1:] if isinstance(x, (str, int))) + tuple(self.canonical(c) for c in self.children(p))

    @remembered
    def varying(self, p):
        """Whether a char-level term matches texts of different lengths."""
        p = self.plain(p)
        n = self.node(p)
        return n[0] in ("many", "class", "opt") or n[0] != "seq" and any(self.varying(c) for c in self.children(p)) or n[0] == "seq" and any(self.varying(c) for c in self.children(p))

    # ---- the graph of nonterminals ----------------------------------------------------------------------------------
    def explore(self, root):
        """All nonterminals reachable from one, with who refers to whom."""
        self.edges, work = {}, [root]
        while work:
            p = work.pop()
            if p in self.edges:
                continue
            self.edges[p] = set()
            seen, inner = set(), [self.alias(p)] if self.alias(p) is not None else self.script_terms(p)
            while inner:
                q = inner.pop()
                if q in seen:
                    continue
                seen.add(q)
                n = self.node(q)
                if n[0] == "ref":
                    body = self.body(q)
                    a = self.alias(q)
                    if q[0] == "closure" or body.get("generics"):
                        inner += [a] if a is not None else self.script_terms(q)
                        continue
                    self.edges[p].add(q)
                    work.append(q)
                    continue
                inner += self.children(q)
        self.referrers = {}
        for p, qs in self.edges.items():
            for q in qs:
                self.referrers.setdefault(q, set()).add(p)
        reach = {}
        for p in self.edges:
            seen, work = set(), list(self.edges[p])
            while work:
                q = work.pop()
                if q not in seen:
                    seen.add(q)
                    work += self.edges[q]
            reach[p] = seen
        self.recursive = {p for p in self.edges if p in reach[p]}
        return self.edges

    def script_terms(self, p):
        """The parsers which a function that is not a mere alias runs."""
        out = []

        class Collect:
            def step(_, I, st, q, at):
                out.append(q)
                st.fresh += 1
                return [(st, "return", okay((IN, "?"), ("sym", "parsed", st.fresh)))]

            def line(_, v):
                return 0
        engine, self.I.engine = self.I.engine, Collect()
        try:
            self.invoke(p, [(IN, "?")])
        finally:
            self.I.engine = engine
        return [q for q in out if q[0] in ("G", "closure", "fn", "rec")]

    def output(self, p):
        return output(self.body(p))


def key(p):
    return repr(p)


class Generator:
    """Derivations of nonterminals, one at a time, each made of the choices it takes: 0 is the first option everywhere.

    Texts consist of characters, lexical pieces, holes, and the places where blanks and comments may stand.
    """

    def __init__(self, g, hole_types, reps=2):
        self.g, self.hole_types, self.reps = g, hole_types, reps

    def line(self, v):
        return 1

    def derive(self, p, choices=(), expand=None):
        """(items, value, options at each choice, holes) of one derivation; items are None when a condition fails.

        `expand` maps a hole's number to (nonterminal, choices, wrapped): that derivation in its place.
        """
        self.choices, self.made, self.counter, self.holes, self.expand, self.top, self.level = tuple(choices), [], 0, [], expand or {}, p, 0
        engine, self.g.I.engine = self.g.I.engine, self
        try:
            d = self.unfold(p)
        finally:
            self.g.I.engine = engine
        return d, list(self.made), list(self.holes)

    def unfold(self, p):
        a = self.g.alias(p)
        return self.gen(a) if a is not None else self.script(p)

    def enumerate(self, p, deviations, limit=100000):
        """All choice sequences with at most so many choices other than the first."""
        out, work = [], [((), 0)]
        while work and len(out) < limit:
            prefix, n = work.pop()
            d, made, holes = self.derive(p, prefix)
            if d is not None:
                out.append((tuple(c for c, _ in made), d[0], d[1], holes))
            if n < deviations:
                chosen = [c for c, _ in made]
                for i in range(len(prefix), len(made)):
                    work += [(tuple(chosen[:i]) + (c,), n + 1) for c in range(1, made[i][1])]
        return out

    def choose(self, n):
        if n == 1:
            return 0
        i = len(self.made)
        c = self.choices[i] if i < len(self.choices) else 0
        self.made.append((c, n))
        return c

    def new(self):
        self.counter += 1
        return self.counter

    def step(self, I, st, p, at):
        """A parser run by a function which does more than that."""
        d = self.gen(p)
        if d is None:
            return [(st, "return", rec(RESULT, "Err", [("0", UNIT)]))]
        st.data["items"] = st.data["items"] + tuple(d[0])
        return [(st, "return", okay((IN, len(st.data["items"])), d[1]))]

    def script(self, p):
        st = self.g.state()
        st.data["items"] = ()
        for s, k, v in self.g.invoke(p, [(IN, 0)], st):
            if k == "return" and v[0] == "rec" and v[3] == "Ok":
                return list(s.data["items"]), field(field(v, "0"), "1")
        return None

    def gen(self, p):
        n = self.g.node(p)
        k = n[0]
        if k == "ref":
            o = output(self.g.body(p))
            if o in self.hole_types and p[0] == "fn" and p in self.g.recursive and not (self.level == 0 and p == self.top and False):
                number = len(self.holes)
                e = self.expand.get(number) if self.level == 0 else None
                if e is not None:
                    self.holes.append((p, o))
                    outer = self.choices, self.made, self.holes, self.level
                    self.choices, self.made, self.holes, self.level = tuple(e[1]), [], [], 1
                    d = self.unfold(e[0])
                    self.choices, self.made, self.holes, self.level = outer
                    if d is None:
                        return None
                    return (list(e[2][0]) + d[0] + list(e[2][1]), d[1]) if e[2] else d
                h = ("hole", self.new(), o, 0)
                if self.level == 0:
                    self.holes.append((p, o))
                return [("ws",), h], h
            return self.unfold(p)
        if k == "wrap":
            return self.gen(n[2])
        if k in ("cut", "all_consuming", "complete"):
            return self.gen(n[1])
        if k in ("seq", "pick", "picks"):
            d = self.sequence(n[1])
            if d is None:
                return None
            items, vs = d
            return items, vs[n[2]] if k == "pick" else tuple_of(*[vs[i] for i in n[2]]) if k == "picks" else tuple_of(*vs)
        if k == "alt":
            return self.gen(n[1][self.choose(len(n[1]))])
        if k == "opt":
            if not self.choose(2):
                return [], NONE
            d = self.gen(n[1])
            return d and (d[0], some(d[1]))
        if k == "map":
            d = self.gen(n[1])
            if d is None:
                return None
            vs = self.g.act(n[2], [d[1]])
            return (d[0], vs[0][1]) if vs else None
        if k == "into":
            d = self.gen(n[1])
            types = conversion(n[2])
            return d and (d[0], self.g.into(types, d[1])[0] if types else d[1])
        if k == "value":
            d = self.gen(n[2])
            return d and (d[0], n[1])
        if k == "success":
            return [], n[1]
        if k == "verify":
            d = self.gen(n[1])
            return d if d is not None and accepts(self.g, n[2], d[1]) is not False else None
        if k == "not":
            return [], UNIT
        if k == "peek":
            q = self.g.plain(n[1])
            try:
                blank = self.g.node(q)[0] == "not"
            except Unsupported:
                blank = True
            d = self.gen(n[1])
            return d and ([], d[1])
        if k == "recognize":
            if self.g.charlevel(n[1]) and self.g.varying(n[1]):
                x = ("lex", self.new(), self.g.canonical(n[1]))
                return [x], x
            d = self.gen(n[1])
            return d and (d[0], concat([item_text(x) for x in d[0]]))
        if k == "class":
            if n[1].startswith(("multispace", "space", "line_ending", "newline")):
                return [("ws",)], ("str", "")
            x = ("lex", self.new(), ("class", n[1]))
            if n[1] == "recognize_float" and self.choose(2):
                return ["-", x], concat([("str", "-"), x])
            return [x], x
        if k == "tag":
            return list(n[1]), ("str", n[1])
        if k == "char":
            return [n[1]], integer(ord(n[1]), "char")
        if k in ("one_of", "none_of"):
            x = ("lex", self.new(), (k, n[1]))
            return [x], x
        if k == "many":
            if self.g.charlevel(n[1]):
                if re.search(r"'(multispace|space|line_ending|newline)[01]?'", repr(self.g.canonical(n[1]))):
                    return [("ws",)], integer(0, "usize") if n[3] else vec([])
                if not self.composite(n[1]):
                    x = ("lex", self.new(), ("many", n[2], self.g.canonical(n[1])))
                    return [x], vec([x])
            return self.repeat(n[1], n[2], None, n[3])
        if k == "times":
            d = self.sequence([n[1]] * n[2])
            return d and (d[0], vec(d[1]))
        if k == "separated":
            return self.repeat(n[2], n[3], n[1], False)
        raise Unsupported(f"generating {k}")

    def sequence(self, ps):
        items, values = [], ()
        for p in ps:
            d = self.gen(p)
            if d is None:
                return None
            items, values = items + d[0], values + (d[1],)
        return items, values

    def repeat(self, p, low, separator, counted):
        count = low + self.choose(self.reps + 1 - low)
        items, values = [], []
        for i in range(count):
            if i and separator is not None:
                d = self.gen(separator)
                if d is None:
                    return None
                items = items + d[0]
            d = self.gen(p)
            if d is None:
                return None
            items, values = items + d[0], values + [d[1]]
        return items, integer(len(values), "usize") if counted else vec(values)

    def composite(self, p):
        """A char-level term with alternatives which are texts of their own."""
        p = self.g.plain(p)
        return self.g.node(p)[0] == "alt" or any(self.composite(c) for c in self.g.children(p))


def blanks(items, fill):
    """A text with its blank places filled: `fill(i)` is what stands at the i-th one, one place between two items."""
    out, n, pending = [], 0, False
    for x in items:
        if x == ("ws",):
            pending = True
            continue
        if pending:
            out += fill(n)
            n, pending = n + 1, False
        out.append(x)
    if pending:
        out += fill(n)
    return out


def places(items):
    n = []
    blanks(items, lambda i: n.append(i) or [])
    return len(n)


def conversion(targs):
    """The types between which nom's into converts: (from, to)."""
    types = [t for t in targs if not t.startswith("nom_locate") and "VerboseError" not in t and not t.startswith(("fn(", "{closure", "impl ")) and "fn(" not in t]
    return (types[0], types[1]) if len(types) >= 2 else None


def item_text(x):
    return ("str", x) if isinstance(x, str) else x


def accepts(g, f, v):
    """What a condition says about a value: True, False or None."""
    st = g.state()
    results = set()
    for s, r in g.act(f, [temporary(st, v)], st):
        results.add(g.I.decide(s, r))
    return results.pop() if len(results) == 1 else None


OK, ERR, FAIL = "ok", "err", "fail"


class Recognizer:
    """Runs the grammar, by nom's rules, on a text with holes."""

    def __init__(self, g, hole_types):
        self.g, self.hole_types = g, hole_types
        self.items, self.memo, self.trail = (), {}, []

    def line(self, v):
        return 1 + sum(x == "\n" for x in self.items[:v[1]])

    def skip(self, pos):
        """Past blanks and comments."""
        items = self.items
        while pos < len(items) and items[pos] in (" ", "\n", "\t", "\r", "#"):
            if items[pos] == "#":
                while pos < len(items) and items[pos] not in ("\n", "\r"):
                    pos += 1
            else:
                pos += 1
        return pos

    def parse(self, p, items):
        """(outcome, position, value) of a parser on a text."""
        self.items, self.memo, self.furthest = tuple(items), {}, 0
        engine, self.g.I.engine = self.g.I.engine, self
        try:
            return self.run(p, 0)
        finally:
            self.g.I.engine = engine

    def step(self, I, st, p, at):
        kind, pos, v = self.run(p, at[1])
        if kind == OK:
            return [(st, "return", okay((IN, pos), v))]
        return [(st, "return", rec(RESULT, "Err", [("0", ("nom", kind, pos))]))]

    def run(self, p, pos):
        k = (p, pos)
        if k not in self.memo:
            self.memo[k] = self.compute(p, pos)
            self.furthest = max(self.furthest, pos)
        return self.memo[k]

    def compute(self, p, pos):
        n = self.g.node(p)
        k = n[0]
        items = self.items
        if k == "ref":
            a = self.g.alias(p)
            r = self.run(a, pos) if a is not None else self.script(p, pos)
            if r[0] == ERR:
                n = self.skip(pos)
                if n < len(items) and isinstance(items[n], tuple) and items[n][0] == "hole" and items[n][2] == output(self.g.body(p)):
                    return (OK, n + 1, items[n][:3] + (self.line((IN, n)),))
            return r
        if k == "wrap":
            return self.run(n[2], pos)
        if k == "complete":
            return self.run(n[1], pos)
        if k == "cut":
            r = self.run(n[1], pos)
            return (FAIL,) + r[1:] if r[0] == ERR else r
        if k == "all_consuming":
            r = self.run(n[1], pos)
            return (ERR, r[1], None) if r[0] == OK and r[1] != len(items) else r
        if k in ("seq", "pick", "picks"):
            values = []
            for q in n[1]:
                r = self.run(q, pos)
                if r[0] != OK:
                    return r
                pos = r[1]
                values.append(r[2])
            if k == "pick":
                return (OK, pos, values[n[2]])
            if k == "picks":
                return (OK, pos, tuple_of(*[values[i] for i in n[2]]))
            return (OK, pos, tuple_of(*values))
        if k == "alt":
            for q in n[1]:
                r = self.run(q, pos)
                if r[0] != ERR:
                    return r
            return (ERR, pos, None)
        if k == "opt":
            r = self.run(n[1], pos)
            if r[0] == OK:
                return (OK, r[1], some(r[2]))
            return (OK, pos, NONE) if r[0] == ERR else r
        if k == "map":
            r = self.run(n[1], pos)
            if r[0] != OK:
                return r
            engine, self.g.I.engine = self.g.I.engine, self
            try:
                vs = self.g.act(n[2], [r[2]])
            finally:
                self.g.I.engine = engine
            if len(vs) != 1:
                raise Unsupported(f"an action with {len(vs)} results at {p[:2]}")
            return (OK, r[1], vs[0][1])
        if k == "into":
            r = self.run(n[1], pos)
            if r[0] != OK:
                return r
            types = conversion(n[2])
            return (OK, r[1], self.g.into(types, r[2])[0] if types else r[2])
        if k == "value":
            r = self.run(n[2], pos)
            return (OK, r[1], n[1]) if r[0] == OK else r
        if k == "success":
            return (OK, pos, n[1])
        if k == "verify":
            r = self.run(n[1], pos)
            if r[0] != OK:
                return r
            return r if accepts(self.g, n[2], r[2]) is not False else (ERR, pos, None)
        if k == "not":
            r = self.run(n[1], pos)
            return (ERR, pos, None) if r[0] == OK else (OK, pos, UNIT)
        if k == "peek":
            r = self.run(n[1], pos)
            return (OK, pos, r[2]) if r[0] == OK else r
        if k == "recognize":
            if self.g.charlevel(n[1]) and self.g.varying(n[1]):
                return self.lexical(self.g.canonical(n[1]), pos)
            r = self.run(n[1], pos)
            return (OK, r[1], concat([item_text(x) for x in items[pos:r[1]]])) if r[0] == OK else r
        if k == "class":
            return self.lexical(("class", n[1]), pos)
        if k in ("tag", "char"):
            s = n[1]
            if items[pos:pos + len(s)] == tuple(s):
                return (OK, pos + len(s), ("str", s) if k == "tag" else integer(ord(s), "char"))
            return (ERR, pos, None)
        if k in ("one_of", "none_of"):
            return self.lexical((k, n[1]), pos)
        if k == "many":
            c = None
            if self.g.charlevel(n[1]):
                c = self.g.canonical(n[1])
                x = items[pos] if pos < len(items) else None
                if isinstance(x, tuple) and x[0] in ("lex", "pure") and same_class(x, ("many", n[2], c)):
                    return (OK, pos + 1, vec([x]))
            values = []
            while True:
                r = self.run(n[1], pos)
                if r[0] == FAIL:
                    return r
                if r[0] == ERR:
                    break
                if r[1] == pos:
                    return (ERR, pos, None)
                pos = r[1]
                values.append(r[2])
            if len(values) < n[2]:
                return (ERR, pos, None)
            return (OK, pos, integer(len(values), "usize") if n[3] else vec(values))
        if k == "times":
            values = []
            for _ in range(n[2]):
                r = self.run(n[1], pos)
                if r[0] != OK:
                    return r
                pos = r[1]
                values.append(r[2])
            return (OK, pos, vec(values))
        if k == "separated":
            values = []
            r = self.run(n[2], pos)
            if r[0] != OK:
                return r if r[0] == FAIL or n[3] else (OK, pos, vec([]))
            pos = r[1]
            values.append(r[2])
            while True:
                s = self.run(n[1], pos)
                if s[0] != OK:
                    if s[0] == FAIL:
                        return s
                    break
                r = self.run(n[2], s[1])
                if r[0] != OK:
                    if r[0] == FAIL:
                        return r
                    break
                pos = r[1]
                values.append(r[2])
            return (OK, pos, vec(values))
        raise Unsupported(f"running {k}")

    def script(self, p, pos):
        engine, self.g.I.engine = self.g.I.engine, self
        try:
            traces = self.g.invoke(p, [(IN, pos)])
        finally:
            self.g.I.engine = engine
        traces = [x for x in traces if x[1] == "return"]
        if len(traces) != 1:
            raise Unsupported(f"{len(traces)} outcomes of {p[1]}")
        v = traces[0][2]
        if v[0] == "rec" and v[3] == "Ok":
            pair = field(v, "0")
            return (OK, field(pair, "0")[1], field(pair, "1"))
        e = [u for u in subterms(v) if u[0] == "nom"]
        return (e[0][1] if e else ERR, pos, None)

    # ---- characters -------------------------------------------------------------------------------------------------
    def lexical(self, c, pos):
        """A char-level term on the text at a position: a lexical piece of the same term, or characters."""
        items = self.items
        x = items[pos] if pos < len(items) else None
        if isinstance(x, tuple) and x[0] in ("lex", "pure") and same_class(x, c):
            y = items[pos + 1] if pos + 1 < len(items) else None
            if y is not None and continues(c, y):
                return (ERR, pos, None)
            return (OK, pos + 1, x)
        if c == ("class", "recognize_float") and x in ("-", "+") and pos + 1 < len(items):
            r = self.lexical(c, pos + 1)
            return (OK, r[1], concat([("str", x), r[2]])) if r[0] == OK and r[1] == pos + 2 else (ERR, pos, None)
        n = longest(c, items, pos)
        if n is None:
            return (ERR, pos, None)
        if n < len(items) and isinstance(items[n], tuple) and continues(c, items[n]):
            return (ERR, pos, None)
        if c[0] in ("one_of", "none_of"):
            return (OK, n, integer(ord(items[pos]), "char"))
        return (OK, n, ("str", "".join(items[pos:n])))


def same_class(x, c):
    if x[0] == "pure":
        # Upper and lower case of hexadecimal digits are hexadecimal digits.
        t = x[2][0]
        if x[1] in ("to_lower", "to_upper") and t[0] == "lex":
            chars = alphabet(t[2])
            return same_class(t, c) and chars is not None and chars.lower() in (chars.lower(),) and set(chars.lower()) <= set(chars) and set(chars.upper()) <= set(chars)
        return False
    return x[2] == c


def alphabet(c):
    if c[0] == "one_of":
        return c[1]
    if c[0] == "many" and len(c) > 2:
        return alphabet(c[2] if isinstance(c[2], tuple) else c[-1])
    if c[0] == "class" and c[1] == "hex_digit1":
        return "0123456789abcdefABCDEF"
    return None


CLASS = {
    "alpha1": (str.isalpha, 1), "alpha0": (str.isalpha, 0), "alphanumeric1": (str.isalnum, 1), "alphanumeric0": (str.isalnum, 0), "digit1": (str.isdigit, 1),
    "digit0": (str.isdigit, 0), "multispace0": (lambda c: c in " \t\r\n", 0), "multispace1": (lambda c: c in " \t\r\n", 1), "space0": (lambda c: c in " \t", 0),
    "space1": (lambda c: c in " \t", 1), "hex_digit1": (lambda c: c in "0123456789abcdefABCDEF", 1), "not_line_ending": (lambda c: c not in "\r\n", 0),
}


def longest(c, items, pos):
    """How far a char-level term reaches over plain characters; None when it does not match."""
    k = c[0]
    x = items[pos] if pos < len(items) and isinstance(items[pos], str) else None
    if k == "class":
        if c[1] == "recognize_float":
            return float_end(items, pos)
        if c[1] == "anychar":
            return pos + 1 if x else None
        if c[1] in ("newline", "tab", "line_ending", "crlf"):
            if x is not None and x == {"tab": "\t"}.get(c[1], "\n") and c[1] != "crlf":
                return pos + 1
            return pos + 2 if c[1] in ("line_ending", "crlf") and items[pos:pos + 2] == ("\r", "\n") else None
        if c[1] not in CLASS:
            raise Unsupported(c[1])
        test, low = CLASS[c[1]]
        n = pos
        while n < len(items) and isinstance(items[n], str) and items[n].isascii() and test(items[n]):
            n += 1
        return n if n - pos >= low else None
    if k == "one_of":
        return pos + 1 if x is not None and x in c[1] else None
    if k == "none_of":
        return pos + 1 if x is not None and x not in c[1] else None
    if k in ("tag", "char"):
        return pos + len(c[1]) if tuple(items[pos:pos + len(c[1])]) == tuple(c[1]) else None
    if k == "seq":
        for d in c[1:]:
            pos = longest(d, items, pos)
            if pos is None:
                return None
        return pos
    if k == "alt":
        for d in c[1:]:
            n = longest(d, items, pos)
            if n is not None:
                return n
        return None
    if k == "opt":
        n = longest(c[1], items, pos)
        return pos if n is None else n
    if k == "many":
        low, d, count = c[1], c[-1], 0
        while True:
            n = longest(d, items, pos)
            if n is None or n == pos:
                break
            pos, count = n, count + 1
        return pos if count >= low else None
    if k == "not":
        return pos if longest(c[1], items, pos) is None else None
    if k == "peek":
        return pos if longest(c[1], items, pos) is not None else None
    if k in ("recognize", "cut", "complete", "wrap"):
        return longest(c[-1], items, pos)
    if k == "times":
        for _ in range(c[1]):
            pos = longest(c[-1], items, pos)
            if pos is None:
                return None
        return pos
    raise Unsupported(f"matching {k}")


def float_end(items, pos):
    def digits(p):
        n = p
        while n < len(items) and isinstance(items[n], str) and items[n].isdigit():
            n += 1
        return n
    n = pos
    if n < len(items) and items[n] in ("+", "-"):
        n += 1
    a = digits(n)
    if a > n:
        n = a
        if n < len(items) and items[n] == ".":
            n = digits(n + 1)
    elif n < len(items) and items[n] == "." and digits(n + 1) > n + 1:
        n = digits(n + 1)
    else:
        return None
    if n < len(items) and items[n] in ("e", "E"):
        m = n + 1
        if m < len(items) and items[m] in ("+", "-"):
            m += 1
        if digits(m) > m:
            n = digits(m)
    return n


def continues(c, x):
    """Whether a piece of text of a char-level term would go on into the next item."""
    if isinstance(x, tuple):
        if x[0] == "hole":
            # A hole begins with a word or a sign.
            return any(tail(c, ch) for ch in SAMPLES if ch not in " \n#")
        firsts = first_chars(x[2]) if x[0] == "lex" else None
        return firsts is None or any(tail(c, ch) for ch in firsts)
    return tail(c, x)


SAMPLES = "aZ_09'\".-+/*=<>&|!?(){}[],:\\# \n"


def first_chars(c):
    return [ch for ch in SAMPLES if longest_prefix(c, ch)]


def longest_prefix(c, ch):
    k = c[0]
    if k == "class" and c[1] == "recognize_float":
        return ch in "0123456789.-+"
    if k in ("class", "one_of", "none_of"):
        try:
            n = longest(c, (ch,), 0)
        except Unsupported:
            return True
        return n == 1
    if k in ("tag", "char"):
        return c[1][:1] == ch
    if k == "seq":
        return bool(c[1:]) and longest_prefix(c[1], ch)
    if k == "alt":
        return any(longest_prefix(d, ch) for d in c[1:])
    return longest_prefix(c[-1], ch) if isinstance(c[-1], tuple) else True


def tail(c, ch):
    """Whether a character can follow a match of the term within a longer match."""
    k = c[0]
    if k == "class":
        if c[1] == "recognize_float":
            return ch in "0123456789.eE"
        test = CLASS.get(c[1])
        return c[1] not in ("newline", "tab", "line_ending", "crlf", "anychar") and (test is None or test[0](ch))
    if k in ("one_of", "none_of", "tag", "char", "not", "peek"):
        return False
    if k == "many":
        return longest_prefix(c[-1], ch)
    if k == "seq":
        return bool(c[1:]) and tail(c[-1], ch)
    if k in ("alt", "opt", "recognize", "cut", "complete", "wrap"):
        return any(tail(d, ch) for d in c[1:] if isinstance(d, tuple)) or k == "opt" and longest_prefix(c[-1], ch)
    return True
