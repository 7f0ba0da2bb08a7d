"""Families of program texts derived from the grammar: every construct, and every construct inside every other."""
import facts, grammar, layout
from grammar import *
from absint import *

LEXICAL = ("lex", "pure")


def root_of(F, path):
    """The nonterminal which a public parsing function runs."""
    b = F["parse"].body(path)
    if b is None:
        raise Unsupported(f"no function {path}")
    for block in b["mir"]["blocks"]:
        t = block["t"]
        if t["k"] == "call" and t["f"].get("key"):
            c = F["parse"].by_key.get(t["f"]["key"])
            if c is not None and "mir" in c and is_parser(c):
                return ("fn", c["path"], c["key"], (), c["path"], ())
    raise Unsupported(f"{path} runs no parser")


class Language:
    def __init__(self):
        F = self.F = facts.load("root")
        self.g = Grammar([F["parse"], F["ast"], F["position"]])
        self.module = root_of(F, "parse::parse")
        self.comments = root_of(F, "parse::parse_comments")
        self.g.explore(self.module)
        home = self.g.output(self.module).split("::")[0]
        by_output = {}
        for p in self.g.recursive:
            by_output.setdefault(self.g.output(p), set()).add(p)
        self.holes = {o for o, ps in by_output.items() if o.split("::")[0] == home and len(set().union(*[self.g.referrers[p] for p in ps])) >= 2}
        self.by_output = by_output
        self.G = Generator(self.g, self.holes)
        self.R = Recognizer(self.g, self.holes)
        self.L = layout.Layout([F["format"], F["ast"], F["position"]])
        self._contexts, self._instances, self.values = None, {}, {}

    # ---- derivations ------------------------------------------------------------------------------------------------
    def instances(self, o, deviations):
        """Derivations of a hole type, without those which are nothing but a hole; and those which wrap one."""
        k = (o, deviations)
        if k not in self._instances:
            found, wraps = {}, {}
            for p in sorted(self.by_output[o], key=lambda p: p[1]):
                for choices, items, value, holes in self.G.enumerate(p, deviations):
                    s = shape(items)
                    if value[0] == "hole" and value[2] == o:
                        if any(x != ("ws",) and x[0] != "hole" for x in items):
                            wraps.setdefault(s, items)
                    else:
                        found.setdefault(s, items)
                        self.values.setdefault(s, value)
            self._instances[k] = list(found.values()), list(wraps.values())
        return self._instances[k]

    @remembered
    def kernel(self, o):
        """A few derivations of a hole type which have all kinds of nodes, operators, first and last words, and places of holes."""
        return self.cover(o, features)

    @remembered
    def sketch(self, o):
        """Fewer derivations, which have all kinds of nodes, operators, and first and last words."""
        return self.cover(o, outline)

    @remembered
    def starts(self, o):
        """Derivations which begin in all ways."""
        return self.cover(o, lambda value, items: {solid(items)[0]})

    @remembered
    def ends(self, o):
        """Derivations which end in all ways."""
        return self.cover(o, lambda value, items: {(solid(items)[-1], value[3])})

    def cover(self, o, features):
        have, out = set(), []
        for items in sorted(self.instances(o, 3)[0], key=weight):
            fs = features(self.values[shape(items)], items)
            if fs - have:
                have |= fs
                out.append(items)
        return out

    def contexts(self):
        """The shortest module with a hole of each type."""
        if self._contexts is None:
            found = {}
            work = [items for _, items, _, _ in self.G.enumerate(self.module, 2)]
            work.sort(key=weight)
            while work:
                items = work.pop(0)
                for x in items:
                    if is_hole(x) and x[2] not in found:
                        found[x[2]] = (items, x[1])
                        for inner in self.instances(x[2], 1)[0]:
                            work.append(compose(items, x[1], inner))
                        work.sort(key=weight)
            self._contexts = found
        return self._contexts

    def inside(self, o, items):
        """A module around a piece of text of a hole type."""
        outer, h = self.contexts()[o]
        return compose(outer, h, items)

    # ---- parsing and formatting -------------------------------------------------------------------------------------
    def parse(self, items):
        k, pos, v = self.R.parse(self.module, items)
        return v if k == OK and pos == len(items) else None

    def parse_comments(self, items):
        # Comments in holes are their own.
        k, pos, v = self.R.parse(self.comments, [x if isinstance(x, str) else "x" for x in items])
        return functional.listed(v) if k == OK and pos == len(items) else None

    def format(self, module, comments, broken):
        return self.L.run("format::format", [module, functional.vec(comments)], broken)


def features(value, items):
    words = solid(items)
    kind = (value[2], value[3])
    out = {(kind, "first", words[0]), (kind, "last", words[-1])}

    def go(v, path):
        if v[0] == "hole":
            out.add((kind, "hole", path))
        if v[0] == "rec":
            if v[2] == POSITION:
                return
            if v[3] is not None and v != NONE:
                out.add((kind, "node", v[2], v[3]))
            for n, x in v[4]:
                go(x, path + (n,))
    go(value, ())
    return out


def solid(items):
    return [x for x in shape(items) if x != ("ws",)]


def outline(value, items):
    words = solid(items)
    kind = (value[2], value[3])
    operators = tuple(x[3] for u in subterms(value) if u[0] == "rec" for _, x in u[4] if x[0] == "rec" and x[3] is not None and not x[4] and x != NONE)
    return {(kind, operators[:1]), ("first", words[0]), ("last", words[-1]), ("last", words[-1], kind[1] if words[-1:] == ["?"] else None)}


def weight(items):
    return (sum(x != ("ws",) for x in items), repr(items))


def is_hole(x):
    return isinstance(x, tuple) and x[0] == "hole"


def shape(items):
    """A text up to the names of its pieces."""
    names, out = {}, []
    for x in items:
        if isinstance(x, tuple) and x[0] in ("lex", "hole"):
            out.append((x[0], names.setdefault(x[1], len(names))) + x[2:])
        else:
            out.append(x)
    return tuple(out)


def ids(items):
    return [x[1] for x in items if isinstance(x, tuple) and x[0] in ("lex", "hole")]


def renumber(items, start):
    return [x[:1] + (x[1] + start,) + x[2:] if isinstance(x, tuple) and x[0] in ("lex", "hole") else x for x in items]


def compose(outer, h, inner):
    """A text with a hole replaced by another text."""
    inner = renumber(inner, max(ids(outer), default=0))
    out = []
    for x in outer:
        out += inner if is_hole(x) and x[1] == h else [x]
    return out


def adjacent(items):
    """Pairs of holes with only blanks in between."""
    out, before = [], None
    for x in items:
        if x == ("ws",):
            continue
        if is_hole(x) and before is not None:
            out.append((before, x))
        before = x if is_hole(x) else None
    return out


def show(items):
    out = ""
    for x in items:
        if isinstance(x, str):
            out += x
        elif x[0] == "ws":
            out += " "
        elif x[0] == "hole":
            out += f"<{x[2].split('::')[-1]} {x[1]}>"
        elif x[0] == "lex":
            out += piece(x)
        elif x[0] == "str":
            out += x[1]
        else:
            out += f"<{x[0]} {x[1]}>" if x[0] != "pure" else f"<{x[1]} {show(x[2][:1])}>"
    return out


def piece(x):
    """A sample spelling of a lexical piece, for messages."""
    c = repr(x[2])
    if "recognize_float" in c or "digit" in c:
        return str(x[1])
    if "alpha" in c:
        return "xyzabcdefghijk"[x[1] % 14] + ("" if x[1] < 14 else str(x[1]))
    if x[2][0] == "one_of" or x[2][0] == "many" and "one_of" in c:
        return c[c.index("one_of"):].split("'")[2][:1] or "?"
    return f"<text {x[1]}>"


# ---- comparing programs ---------------------------------------------------------------------------------------------
def unions(v, adt):
    if v[0] == "rec" and v[4] and len(v[4]) == 1 and v[4][0][1][0] == "rec" and v[4][0][1][2] == adt:
        return [y for n, x in v[4][0][1][4] if x[0] != "rec" or x[2] != POSITION for y in unions(x, adt)]
    return [v]


def normal(v):
    """A syntax tree without positions, orders of imports, and groupings of unions."""
    v = functional.unbox(v)
    if v[0] == "hole":
        return v[:3]
    if v[0] == "rec":
        if v[2] == POSITION:
            return "position"
        name = (v[2] or "").split("::")[-1]
        if v[4] and len(v[4]) == 1 and v[4][0][1][0] == "rec" and v[4][0][1][2].endswith("::Union"):
            return ("union", tuple(normal(x) for x in unions(v, v[4][0][1][2])))
        fields = []
        for n, x in v[4]:
            y = normal(x)
            if n == "imports" and name == "Module" or n == "unqualified_names":
                y = y[:2] + (tuple(sorted((z for _, z in y[2]), key=repr)),)
            fields.append((n, y))
        return (name, v[3], tuple(fields))
    if v[0] == "text":
        return v
    return v


def differ(a, b, path=""):
    """Where two normalised trees differ first."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 and a[:2] == b[:2] and isinstance(a[2], tuple) and isinstance(b[2], tuple):
        for x, y in zip(a[2], b[2]):
            if x != y:
                if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and len(y) == 2 and x[0] == y[0]:
                    return differ(x[1], y[1], path + "." + str(x[0]))
                return path
        return path
    return path


def kind_of(v):
    """A short description of a normalised tree."""
    if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], str):
        if v[0] == "hole":
            return v[2].split("::")[-1]
        if v[1] and v[1] != v[0]:
            return str(v[1])
        return v[0]
    return str(v)[:40]
