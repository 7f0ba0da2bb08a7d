"""The parser: B04 (operations), B05 (words, blanks and comments), B06 (positions)."""
import itertools, multiprocessing, re, sys, time
import texts
from texts import *
from formatting import language, laid, singles, pairs, place, begin, end, construct, comments as comment_layouts, spelled, DEADLINE

LEVELS = [["|"], ["&"], ["==", "!=", "<", "<=", ">", ">="], ["+", "-"], ["*", "/"]]
LEVEL = {o: i for i, os in enumerate(LEVELS) for o in os}
DEBUG = False
SUFFIXES = [".f", "()", "(@)", "(@,@)", "?"]


# ---- sweeping over tasks --------------------------------------------------------------------------------------------
def examine(task):
    try:
        return task, JUDGES[task[0]](language(), *task[1:])
    except Exception as e:
        if DEBUG:
            raise
        return task, f"{type(e).__name__ if not isinstance(e, (Limit, Unsupported)) else ''} {e}"[:300]


def sweep(check, tasks, what, locate=None):
    """Judges: each gives None (not applicable) or a list of (key, message)."""
    L = language()
    count = skipped = 0
    undecided, cut = {}, False
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for task, r in pool.imap_unordered(examine, tasks, 16):
            if isinstance(r, str):
                k = re.sub(r"\d+", "#", r)[:80]
                undecided[k] = undecided.get(k, 0) + 1
                continue
            if r is None:
                skipped += 1
                continue
            count += 1
            check.ok(what)
            for key, message in r:
                check.violation(key, message, (locate or where)(L, key))
            if len(check.violations) >= 6 or time.time() - check.start > (DEADLINE if check.tier == "quick" else 840):
                cut = True
                pool.terminate()
                break
    check.note(f"{what}: {count} decided, {skipped} not applicable, {sum(undecided.values())} undecided" + (", stopped early" if cut else ""))
    for k, n in sorted(undecided.items(), key=lambda x: -x[1])[:5]:
        check.note(f"undecided {n} times: {k}")


def where(L, key):
    """The parser's function for a kind of node, or its entry."""
    F = L.F["parse"]
    for word in re.split(r"[/:]", key):
        for b in F.bodies:
            if "mir" in b and b["kind"] != "Closure" and is_parser(b) and output(b).split("::")[-1] == word:
                return f"{b['file']}:{b['line']}"
    for b in F.bodies:
        if b["path"] == L.module[1]:
            return f"{b['file']}:{b['line']}"
    return "lib/parse"


# ---- B04 ------------------------------------------------------------------------------------------------------------
def expressions(L):
    """The hole type of expressions: the one which operations are made of."""
    for o in sorted(L.holes):
        if tree(L, o, [("hole", 1, o)] + list(" == ") + [("hole", 2, o)]) is not None:
            return o
    raise Unsupported("no kind of expressions")


def tree(L, o, items):
    """The syntax tree of an expression within a module, and None if the parser refuses it."""
    v = L.parse(laid(L.inside(o, items), "flat"))
    return None if v is None else normal(v)


TEMPLATES = {}


def template(L, o, operator):
    """The syntax tree of one operation as a function of its operands' trees."""
    if operator not in TEMPLATES:
        n = operator.count("@") + (2 if operator in LEVEL else 1)
        hs = [("hole", 101 + i, o) for i in range(n)]
        if operator in LEVEL:
            items = [hs[0]] + list(f" {operator} ") + [hs[1]]
        elif operator == "!":
            items = ["!", hs[0]]
        else:
            items = [hs[0]]
            k = 1
            for c in operator:
                items.append(hs[k] if c == "@" else c)
                k += c == "@"
        outer, h = L.contexts()[o]
        t = tree(L, o, items)
        around = normal(L.parse(laid(outer, "flat")))
        TEMPLATES[operator] = t, around, h, [("hole", x[1] + max(ids(outer), default=0), o) for x in hs]
    return TEMPLATES[operator]


def replace(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(replace(x, old, new) for x in t)
    return t


def within(t, around, hole):
    """The subtree of `t` at the place where `hole` is in `around`."""
    if around == hole:
        return t
    if isinstance(around, tuple) and isinstance(t, tuple) and len(t) == len(around):
        for x, y in zip(t, around):
            if has(y, hole):
                return within(x, y, hole)
    return None


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)


def applied(L, o, operator, operands):
    t, around, h, holes = template(L, o, operator)
    if t is None:
        raise Unsupported(f"no operation {operator}")
    inner = within(t, around, ("hole", h, o))
    if inner is None:
        raise Unsupported(f"no expression for {operator}")
    for i, (x, y) in enumerate(zip(holes, operands)):
        inner = replace(inner, x, ("operand", i))
    for i, y in enumerate(operands):
        inner = replace(inner, ("operand", i), y)
    return inner


def reference(L, o, words, shift):
    """The tree of a list of words by the language's rules: prefix, suffix and infix operators over operands."""
    at = 0

    def operand():
        nonlocal at
        w = words[at]
        at += 1
        if w == "!":
            return applied(L, o, "!", [operand()])
        if w == "(":
            x = infix(0)
            assert words[at] == ")"
            at += 1
        else:
            x = ("hole", w + shift, o)
        while at < len(words) and isinstance(words[at], str) and words[at] in SUFFIXES:
            s = words[at]
            at += 1
            xs = []
            for c in s:
                if c == "@":
                    xs.append(("hole", words[at] + shift, o))
                    at += 1
            x = applied(L, o, s, [x] + xs)
        return x

    def infix(level):
        nonlocal at
        if level == len(LEVELS):
            return operand()
        x = infix(level + 1)
        while at < len(words) and words[at] in LEVELS[level]:
            w = words[at]
            at += 1
            x = applied(L, o, w, [x, infix(level + 1)])
        return x
    return infix(0)


def spell(o, words, space):
    """The items of a list of words."""
    items, i = [], 0
    while i < len(words):
        w = words[i]
        if isinstance(w, int):
            items.append(("hole", w, o))
        elif w in SUFFIXES:
            for c in w:
                if c == "@":
                    i += 1
                    items.append(("hole", words[i], o))
                else:
                    items.append(c)
        elif w in LEVEL:
            items += list(space) + list(w) + list(space)
        else:
            items += list(w)
        i += 1
    return items


def grouped(L, o, words, space):
    outer, h = L.contexts()[o]
    shift = max(ids(outer), default=0)
    items = spell(o, words, space)
    text = "".join(x if isinstance(x, str) else chr(96 + x[1] % 26 or 26) for x in items)
    kinds = "/".join(dict.fromkeys(w for w in words if isinstance(w, str) and w != "(" and w != ")"))
    t = tree(L, o, items)
    if t is None:
        return [(f"refused:{kinds}", f"the parser refuses `{text.strip()}`")]
    _, around, h, _ = template(L, o, "==")
    got = within(t, around, ("hole", h, o))
    expected = reference(L, o, words, shift)
    if got != expected:
        return [(f"grouping:{kinds}", f"the parser groups `{' '.join(text.split())}` differently than the priorities of its operators say")]
    return []


def chains(thorough):
    """Lists of words."""
    ops = [o for os in LEVELS for o in os]
    few = ["|", "&", "==", "<", "+", "-", "*", "/"]
    for n, choices in ((1, ops), (2, ops), (3, ops if thorough else few), (4, few if thorough else ["|", "&", "!=", "-", "*"]), (5, ["|", "&", "<=", "+", "/"] if thorough else ["&", "-", "*"])):
        for os in itertools.product(choices, repeat=n):
            words = [1]
            for i, w in enumerate(os):
                words += [w, i + 2]
            yield words, " "
            if n <= 2:
                yield words, ""
                yield words, "\n"
                yield words, "#c\n"
    # Parentheses.
    for a, b in itertools.product(ops, ops):
        yield [1, a, "(", 2, b, 3, ")"], " "
        yield ["(", 1, a, 2, ")", b, 3], " "
        yield ["!", "(", 1, a, 2, ")", b, 3], " "
        for s in SUFFIXES[:1] + SUFFIXES[-1:]:
            yield [1, a, "(", 2, b, 3, ")", s], " "
            yield ["(", 1, a, 2, ")", s, b, 3], " "
    # Prefixes and suffixes.
    def suffixed(x, ss, k):
        out = [x]
        for s in ss:
            out.append(s)
            for c in s:
                if c == "@":
                    k += 1
                    out.append(k)
        return out
    few = [()] + [(s,) for s in SUFFIXES] + list(itertools.product(SUFFIXES, repeat=2))
    for n in (0, 1, 2):
        for ss in few:
            yield ["!"] * n + suffixed(1, ss, 10), " "
            for a in ops:
                yield ["!"] * n + suffixed(1, ss, 10) + [a, 2], " "
                yield [2, a] + ["!"] * n + suffixed(1, ss, 10), " "
                if n < 2 and len(ss) < 2:
                    yield [2, a] + ["!"] * n + suffixed(1, ss, 10) + ["-", 3], " "
    for ss in itertools.product(SUFFIXES, repeat=3):
        yield suffixed(1, ss, 10), " "


def distinct(L, o):
    """Operators are told apart, and so are their operands."""
    out, seen = [], {}
    for w in [w for ws in LEVELS for w in ws] + ["!"] + SUFFIXES:
        n = w.count("@") + (2 if w in LEVEL else 1)
        xs = [("operand", i, None) for i in range(n)]
        t = applied(L, o, w, xs)
        if t in seen:
            out.append((f"same:{w}", f"the parser does not tell `{w}` from `{seen[t]}`"))
        seen[t] = w
        for x in xs:
            if sum(y == x for y in subtuples(t)) != 1:
                out.append((f"operand:{w}", f"an operand of `{w}` is not in its tree once"))
    return out


def subtuples(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subtuples(x)


def operations(check):
    """B04."""
    L = begin(check, "For every chain of operators: the parser's tree is the one which a table of priorities, left to right among the same, gives; suffixes bind tighter than `!`, and it tighter than infix operators.")
    if L is None:
        return
    try:
        o = expressions(L)
        for w in [w for ws in LEVELS for w in ws] + ["!"] + SUFFIXES:
            template(L, o, w)
    except (Limit, Unsupported) as e:
        check.note(f"undecided: {e}")
        return
    for w in list(TEMPLATES):
        if TEMPLATES[w][0] is None:
            check.violation(f"refused:{w}", f"the parser refuses the operator `{w}`", where(L, "Expression"))
    if not check.violations:
        for key, message in distinct(L, o):
            check.violation(key, message, where(L, "Expression"))
    if not check.violations:
        seen, tasks = set(), []
        for words, space in chains(check.tier == "thorough"):
            k = (tuple(words), space)
            if k not in seen:
                seen.add(k)
                tasks.append(("grouped", o, words, space))
        sweep(check, tasks, "chains of operators")
    finish(check, L)


# ---- B05 ------------------------------------------------------------------------------------------------------------
FILLS = {"lines": "\n", "tabs": "\t", "returns": "\r\n", "blanks": " \n\t ", "comments": "#a \"{(\n", "twice": " # [\n\n#b\r"}


def filled(items, layout):
    if isinstance(layout, str):
        return blanks(items, lambda i: list(FILLS[layout]))
    i, text = layout
    return blanks(items, lambda j: list(text) if i == j else [" "])


def unmoved(L, items, layouts):
    """Blanks and comments between words do not matter."""
    v = L.parse(laid(items, "flat"))
    if v is None:
        return None
    before, out = normal(v), []
    for layout in layouts:
        text = filled(items, layout)
        w = L.parse(text)
        what = layout if isinstance(layout, str) else repr(layout[1])
        if w is None:
            out.append((f"refused:{construct(before)}", f"the parser refuses `{show(text)!r}` though it reads it with single blanks"))
        elif normal(w) != before:
            out.append((f"changed:{construct(before)}", f"blanks or comments change how `{show(text)!r}` is read"))
    return out[:1]


def words_of(L, texts):
    """The words which are spelled out in the grammar."""
    out = set()
    for items in texts:
        run = ""
        quoted = False
        for x in list(items) + [("ws",)]:
            if x == '"':
                quoted = not quoted
            if isinstance(x, str) and (x.isalpha() or run and x.isalnum()):
                run += x
            elif isinstance(x, tuple) and x[0] == "lex":
                run = ""
            else:
                if len(run) > 1 and not quoted:
                    out.add(run)
                run = ""
    return sorted(out)


def named(L, items, i, words):
    """Any word which is no keyword may be a name, and no keyword may."""
    flat = laid(items, "flat")
    v = L.parse(flat)
    if v is None:
        return None
    lex = flat[i]
    around = normal(v)

    def with_name(name):
        w = L.parse([y for j, x in enumerate(flat) for y in (list(name) if j == i else [x])])
        return None if w is None else normal(w)

    def expected(name):
        return spelt(around, lex, name)
    if any(with_name(n) != expected(n) for n in ("Xa", "Xab_1")) or with_name("X+a") == expected("X+a"):
        return None
    lower = with_name("xa") == expected("xa")
    out = []
    for k in words:
        names = [k[0].upper() + k[1:]]
        if lower:
            names += [k + "s", k + "_", k + "1", "_" + k, "x" + k] + [k[:-1]] * (len(k) > 2 and k[:-1] not in words)
            if with_name(k) == expected(k):
                out.append((f"keyword:{k}", f"the parser takes the keyword `{k}` for a name in {show(flat)!r}"))
        for n in names:
            if with_name(n) != expected(n):
                out.append((f"name:{k}:{construct(around)}", f"the parser does not take `{n}` for a name in {show(flat)!r}"))
                break
    return out[:2]


def spelt(t, lex, name):
    """A tree with a lexical piece spelled out."""
    if t == lex:
        return ("str", name)
    if isinstance(t, tuple):
        return tuple(spelt(x, lex, name) for x in t)
    return t


def trailing(L, items):
    """Nothing may follow a module."""
    flat = laid(items, "flat")
    v = L.parse(flat)
    if v is None:
        return None
    out = []
    for t in (")", "}", "]", ",", "\"", "@", "0", "=", "\\"):
        if L.R.parse(L.module, flat + [" ", t])[0] == OK:
            out.append((f"trailing:{t}", f"the parser takes `{t}` behind the end of {show(flat)!r}"))
    return out


CONTENTS = ["", "a", "#", "a#b", " ", "{", "//", "\\\\", "\\\"", "\\\"#", "\\n", "\\t", "\\r", "\\x00", "\\xfF", "'", "\n", "#\n", "\\\\#", "é"]


def quoted(L, o, content):
    """Strings are verbatim and hide comments; comments are what follows a `#` to the end of its line."""
    out = []
    items = laid(L.inside(o, ['"'] + list(content) + ['"'] + list("# c \"d\n")), "flat")
    v = L.parse(items)
    if v is None:
        return [("string:refused", f"the parser refuses the string {content!r}")]
    if not any(text_of(x) == content for x in string_nodes(normal(v))):
        out.append(("string:changed", f"the parser changes the string {content!r}"))
    cs = L.parse_comments(items)
    if cs is None:
        out.append(("comments:refused", f"the comments of a text with the string {content!r} are refused"))
    else:
        found = [x for x in spelled(cs)]
        if found != [" c \"d"]:
            out.append(("comments:found", f"the comments of a text with the string {content!r} and the comment `# c \"d` are {found}"))
    return out


def string_nodes(t):
    """Texts in a tree, whether they are in one piece or a list of pieces."""
    for x in subtuples(t):
        if len(x) == 3 and isinstance(x[0], str) and isinstance(x[2], tuple):
            for f in x[2]:
                if isinstance(f, tuple) and len(f) == 2:
                    yield f[1]


def text_of(x):
    if isinstance(x, tuple) and x:
        if x[0] == "str":
            return x[1]
        if x[0] == "text":
            return "".join(p[1] if p[0] == "str" else "?" for p in functional.parts_of(x))
        if len(x) == 3 and x[0] == "seq" or x[0] == "vec":
            inner = [text_of(y[1] if isinstance(y, tuple) and len(y) == 2 else y) for y in x[2]]
            return "".join(inner) if all(isinstance(y, str) for y in inner) else None
    return None


def reading(check):
    """B05."""
    L = begin(check, "For every text of the families: other blanks, line breaks and comments between its words leave the syntax tree as it is; every word but a keyword is a name wherever names may be, and keywords are not; texts are read to their ends; strings are verbatim and hide comments.")
    if L is None:
        return
    thorough = check.tier == "thorough"
    tasks, texts = [], list(singles(L, 3 if thorough else 2))
    for items in texts:
        n = places(items)
        layouts = list(FILLS) + [(i, t) for i in range(n) for t in ("\n", "#\n", " #x) \"\r")]
        tasks.append(("unmoved", items, layouts))
    sweep(check, tasks, "blanks and comments in single constructs")
    if not check.violations:
        words = words_of(L, texts)
        check.note(f"keywords: {' '.join(words)}")
        seen, tasks = set(), []
        for items in singles(L, 2 if thorough else 1):
            flat = laid(items, "flat")
            for i, x in enumerate(flat):
                if isinstance(x, tuple) and x[0] == "lex":
                    k = (shape(items), i)
                    if k not in seen:
                        seen.add(k)
                        tasks.append(("named", items, i, words))
        # Names of the same kind in the same place of a text are the same name.
        sweep(check, tasks, "names in single constructs")
    if not check.violations:
        sweep(check, [("trailing", items) for items in singles(L, 1)], "ends of texts")
    if not check.violations:
        try:
            o = expressions(L)
            sweep(check, [("quoted", o, c) for c in CONTENTS], "strings and comments")
        except (Limit, Unsupported) as e:
            check.note(f"undecided: {e}")
    if not check.violations:
        sweep(check, [("unmoved", items, ["lines", "comments"]) for items in pairs(L, thorough)], "blanks and comments in nested constructs")
    finish(check, L)


# ---- B06 ------------------------------------------------------------------------------------------------------------
def position_of(v):
    """The position of a node itself."""
    if v[0] != "rec" or not v[4]:
        return None
    for n, x in v[4]:
        x = functional.unbox(x)
        if x[0] == "rec" and x[2] == POSITION:
            return x
    return None


def located(L, p):
    """What a position says: (path, line, column, line's text), by its own accessors."""
    F = L.F["position"]
    st = L.g.state()
    out = []
    for name in ("path", "line_number", "column_number", "line"):
        b = F.body(f"{POSITION}::{name}") or next((b for b in F.bodies if b["path"].endswith(f"Position::{name}") and "mir" in b), None)
        if b is None:
            raise Unsupported(f"positions have no {name}")
        r = [x for x in L.g.I.run(b, [temporary(st, p)], st)]
        if len(r) != 1 or r[0][1] != "return":
            raise Unsupported(f"{name} of a position is undecided")
        out.append(val(L.g.I, r[0][0], r[0][2]))
    return out


def ranges(L):
    """The narrowest ranges of the text which the parser read as each value with a position of its own."""
    out = {}
    items = L.R.items
    for (p, pos), r in L.R.memo.items():
        if r[0] != OK:
            continue
        v = functional.unbox(r[2]) if isinstance(r[2], tuple) else None
        while v is not None and v[0] == "rec" and v[4] and position_of(v) is None and len(v[4]) == 1:
            v = functional.unbox(v[4][0][1])
        if v is None or v[0] != "rec" or not v[4] or position_of(v) is None:
            continue
        start = L.R.skip(pos)
        k = repr(v)
        if k not in out or r[1] - start < out[k][1] - out[k][0]:
            out[k] = (start, r[1])
    return out


def nodes_of(v, out):
    v = functional.unbox(v)
    if v[0] == "rec":
        if v[2] == POSITION:
            return
        if position_of(v) is not None:
            out.append(v)
        for _, x in v[4] or ():
            nodes_of(x, out)


def placed(L, items, layout):
    """Every node's position is where its text begins, or at its operator."""
    text = laid(items, layout)
    L.R.items = tuple(text)
    v = L.parse(text)
    if v is None:
        return None
    narrow = ranges(L)
    nodes = []
    nodes_of(v, nodes)
    out = []
    for n in nodes:
        k = repr(n)
        name = (n[3] or n[2] or "").split("::")[-1]
        path, line, column, shown = located(L, position_of(n))
        at = next((u[2][1] for u in [column] if u[0] == "column" and u[2][0] == IN), None)
        if at is None and column[0] == "int":
            continue  # the position of a hole
        if at is None:
            out.append((f"column:{name}", f"the column of a {name} is not that of a place in its source"))
            continue
        if shown != ("line_beginning", (IN, at)) and not (shown[0] == "line_beginning"):
            out.append((f"line:{name}", f"the line shown for a {name} is not the one it is on"))
            continue
        if shown[1] != (IN, at):
            out.append((f"line:{name}", f"the line shown for a {name} is not the one it is on"))
            continue
        if line != integer(L.R.line((IN, at)), "usize"):
            out.append((f"line:{name}", f"the line number of a {name} is not that of its column's line"))
            continue
        if not (path[0] == "fld" and path[1] == (IN, at)):
            out.append((f"path:{name}", f"the path of a {name} is not that of its source"))
            continue
        if k not in narrow or name == construct_module(L):
            continue
        a, e = narrow[k]
        first = next((q for q in range(a, e) if text[q] not in ("(", " ", "\n")), a)
        inner = [c for _, x in n[4] for c in children(x)]
        below = []
        for c in inner:
            nodes_of(c, below)
        led = is_hole(text[first]) or any(column_of(L, c) in (a, first) for c in below)
        if at != a and not (led and behind(L, text, n, at, first, e, inner, narrow, a)):
            out.append((f"place:{name}", f"the position of a {name} is at `{show(text[at:at + 12]).strip()}` in `{show(text[a:e]).strip()}`"))
    return out[:3]


def construct_module(L):
    return output(L.g.body(L.module)).split("::")[-1]


def column_of(L, n):
    """The place in the text which a node's position is for."""
    column = located(L, position_of(n))[2]
    return column[2][1] if column[0] == "column" and column[2][0] == IN else None


def children(v):
    """The nearest nodes with positions in a value."""
    v = functional.unbox(v)
    if v[0] != "rec" or v[2] == POSITION:
        return []
    if position_of(v) is not None:
        return [v]
    return [c for _, x in v[4] or () for c in children(x)]


def leaves(v, out):
    """The pieces and holes in a value."""
    if isinstance(v, tuple) and v:
        v = functional.unbox(v)
        if v[:1] in (("hole",), ("lex",)) and len(v) > 1:
            out.add(v[1])
        elif not (v[:1] == ("rec",) and v[2] == POSITION):
            for x in v:
                leaves(x, out)
    return out


def following(text, q, e):
    """The next place which is neither blank nor in a comment nor a closing parenthesis."""
    while q < e and text[q] in (")", " ", "\n", "#"):
        if text[q] == "#":
            while q < e and text[q] != "\n":
                q += 1
        q += 1
    return q


def behind(L, text, n, at, first, e, inner, narrow, a):
    """Whether a place is that of the operator of a node which begins with an operand."""
    if not first < at < e or text[at] in (")", " ", "\n") or isinstance(text[at], tuple) and is_hole(text[at]):
        return False
    # The operator follows the operand where that is a hole.
    operand = is_hole(text[first]) and any(functional.unbox(x)[:2] == ("hole", text[first][1]) for _, x in n[4])
    if operand and at != following(text, first + 1, e):
        return False
    for _, x in n[4]:
        xs = [y for _, y in x[4]] if x[0] == "rec" and x[1] is None and x[2] in ("vec", "seq") else [x]
        for y in xs:
            at_leaves = [q for q in range(a, e) if isinstance(text[q], tuple) and text[q][0] in ("hole", "lex") and text[q][1] in leaves(y, set())]
            if at_leaves and min(at_leaves) < at < max(at_leaves):
                return False
    for c in inner:
        column = column_of(L, c)
        if narrow.get(repr(c), (a,))[0] == a and column is not None and at <= column:
            ls = leaves(c, set())
            if is_hole(text[first]) and text[first][1] in ls or column == first:
                return False
    return True


def alike(check, L):
    """Positions do not take part in comparisons."""
    F = L.F["position"]
    I = Interp([F], models=functional.M)
    for b in F.bodies:
        if "mir" not in b or not b["path"].startswith("<" + POSITION + " as ") and POSITION not in b["path"]:
            continue
        m = re.search(r"::(eq|ne|cmp|partial_cmp|hash)$", b["path"])
        if not m:
            continue
        name = m.group(1)
        want = {"eq": integer(1, "bool"), "ne": integer(0, "bool")}.get(name)
        try:
            st = State()
            results = I.run(b, [temporary(st, ("sym", POSITION, i)) for i in (1, 2)], st)
        except (Limit, Unsupported) as e:
            check.note(f"undecided: {name} of positions: {e}")
            continue
        for s, kind, v in results:
            v = functional.unbox(v) if isinstance(v, tuple) else v
            bad = kind != "return"
            if name in ("eq", "ne"):
                bad |= v != want
            elif name in ("cmp", "partial_cmp"):
                bad |= not any(u[0] == "rec" and u[3] == "Equal" for u in subterms(v))
            elif name == "hash":
                bad |= any(e[0] == "call" for e in s.events)
            if bad:
                check.violation(f"compared:{name}", f"`{name}` of positions depends on them, so that types and values which differ in their places only are different", f"{b['file']}:{b['line']}")
            else:
                check.ok("comparisons of positions")


def positions(check):
    """B06."""
    L = begin(check, "For every text of the families: every node's position has the line and column of one place, where its own text begins or its operator stands; comparisons ignore positions.")
    if L is None:
        return
    thorough = check.tier == "thorough"
    tasks = [("placed", items, layout) for items in singles(L, 2) for layout in ("flat", "lines", (" ", tuple(range(places(items)))))]
    sweep(check, tasks, "positions in single constructs")
    if not check.violations:
        sweep(check, [("placed", items, "lines") for items in pairs(L, thorough, "bw" if thorough else "b")], "positions in nested constructs")
    alike(check, L)
    finish(check, L)


JUDGES = {"grouped": grouped, "unmoved": unmoved, "named": named, "trailing": trailing, "quoted": quoted, "placed": placed}


def finish(check, L):
    for o in sorted(L.holes):
        for items in L.kernel(o)[:80]:
            try:
                L.parse(laid(L.inside(o, items), "flat"))
            except (Limit, Unsupported):
                pass
    end(check, L)
