"""The formatter: B01 (the program stays the same), B02 (comments stay), B03 (formatted text stays the same).

Families of texts are derived from the parser's grammar. The parser and the formatter are interpreted abstractly on each of
them: names, numbers and strings are opaque pieces, and whole expressions, types, blocks and functions are holes.
"""
import collections, multiprocessing, os, re, sys, time
import texts
from texts import *

sys.setrecursionlimit(100000)
LANG = None
DEADLINE = 600


def language():
    global LANG
    if LANG is None:
        LANG = Language()
        LANG.contexts()
    return LANG


# ---- layouts of a text ----------------------------------------------------------------------------------------------
def laid(items, layout):
    """A text with its blank places filled: all spaces, all line breaks, one line break, or comments."""
    if layout == "flat":
        return blanks(items, lambda i: [" "])
    if layout == "lines":
        return blanks(items, lambda i: ["\n"])
    if isinstance(layout, int):
        return blanks(items, lambda i: ["\n"] if i == layout else [" "])
    space, commented = layout[:2]
    around = "#\n" if len(layout) > 2 else ""
    return blanks(items, lambda i: list(f"{around}#c{i};\n{around}") if i in commented else [space])


def comments(n):
    """Layouts with comments: one at each place, at every place, and at every other, and some between empty comments."""
    for space in "\n ":
        for places in [(j,) for j in range(n)] + [tuple(range(n)), tuple(range(0, n, 2)), tuple(range(1, n, 2))]:
            yield space, places
    for places in [(j,) for j in range(n)] + [tuple(range(n))]:
        yield "\n", places, "among empty ones"


# ---- families of texts ----------------------------------------------------------------------------------------------
def singles(L, deviations):
    """Every construct by itself, and every module with few parts."""
    for o in sorted(L.holes):
        for items in L.instances(o, deviations)[0]:
            yield L.inside(o, items)
    seen = set()
    for _, items, _, _ in L.G.enumerate(L.module, deviations + 1):
        if shape(items) not in seen:
            seen.add(shape(items))
            yield items


def forms(L, o, chosen, which="bw"):
    """How a construct of a type may stand in a text: as it is (b), or wrapped (w)."""
    wraps = L.instances(o, 1)[1]
    for items in chosen(o):
        if "b" in which:
            yield items
        for w in wraps if "w" in which else ():
            h = [x[1] for x in w if is_hole(x)][0]
            yield compose(w, h, items)


def pairs(L, thorough=False, which="bw"):
    """Every construct in every place of every construct."""
    chosen = L.kernel if thorough else L.sketch
    for o in sorted(L.holes):
        for outer in L.kernel(o):
            for x in outer:
                if is_hole(x):
                    for inner in forms(L, x[2], chosen, which):
                        yield L.inside(o, compose(outer, x[1], inner))


def neighbours(L, thorough=False):
    """Every two constructs next to each other."""
    for o in sorted(L.holes):
        seen = set()
        for outer in L.kernel(o):
            for x, y in adjacent(outer):
                if (x[2], y[2]) in seen and o != min(L.holes):
                    continue
                seen.add((x[2], y[2]))
                for a in forms(L, x[2], L.sketch if thorough else L.ends):
                    for b in forms(L, y[2], L.sketch if thorough else L.starts):
                        yield L.inside(o, compose(compose(outer, y[1], b), x[1], a))


def solid(L, items):
    """A text with its blocks spelled out."""
    for o in sorted(L.holes):
        if o.endswith("::Block"):
            while any(is_hole(x) and x[2] == o for x in items):
                items = compose(items, next(x[1] for x in items if is_hole(x) and x[2] == o), L.sketch(o)[0])
    return items


# ---- judging one text -----------------------------------------------------------------------------------------------
def layouts_of(L, module, comments, broken):
    """What the formatter may write."""
    seen, out = set(), []
    for st, kind, written in L.format(module, comments, broken):
        if (kind, tuple(written)) not in seen:
            seen.add((kind, tuple(written)))
            out.append((st, kind, written))
    return out


def panics(L, st):
    for e in reversed(st.events):
        if e[0] == "panic":
            return dict(e[1]) if isinstance(e[1], tuple) else {}
    return {}


def preserved(L, text, broken):
    """B01: what the formatter writes is the same program."""
    v = L.parse(text)
    if v is None:
        return None
    before, out = normal(v), []
    for b in broken:
        if b and not any(is_hole(x) for x in text):
            continue
        for st, kind, written in layouts_of(L, v, [], b):
            if kind != "return":
                out.append(("panics", construct(before), written, "the formatter does not return"))
                continue
            w = L.parse(written)
            if w is None:
                out.append(("unreadable", construct(before), written, "the parser refuses what the formatter writes"))
            elif normal(w) != before:
                out.append(("different", contrast(before, normal(w)), written, "the formatted program is another one, at " + (differ(before, normal(w)) or "its root")))
    return out


def kept(L, text, broken):
    """B02: every comment is in what the formatter writes, once, and nothing else changes."""
    v = L.parse(text)
    if v is None:
        return None
    cs = L.parse_comments(text)
    if cs is None:
        return [("unreadable", "comments", [], "the parser refuses the comments of a program which it reads")]
    expected, out = comment_names(spelled(cs)), []
    written_in = "".join(x for x in text if isinstance(x, str))
    if sorted(expected) != sorted(re.findall(r"#(c\d+;|)\n", written_in)):
        out.append(("missed", construct(normal(v)), text, "the parser does not find every comment"))
    before = normal(v)
    for st, kind, written in layouts_of(L, v, cs, False):
        if kind != "return":
            out.append(("panics", construct(before), written, "the formatter does not return"))
            continue
        w = L.parse(written)
        ds = L.parse_comments(written)
        if w is None or ds is None:
            out.append(("unreadable", construct(before), written, "the parser refuses what the formatter writes"))
            continue
        if normal(w) != before:
            out.append(("different", contrast(before, normal(w)), written, "a comment changes the program"))
        found = comment_names(spelled(ds))
        if sorted(found) != sorted(expected):
            lost = sorted((collections.Counter(expected) - collections.Counter(found)).elements())
            out.append(("lost" if lost else "repeated", construct(before), written, "comments " + ", ".join(x or "(empty)" for x in lost or sorted(found))))
    return out


def stable(L, text, broken):
    """B03: formatting formatted text changes nothing."""
    v = L.parse(text)
    if v is None:
        return None
    out = []
    for st, kind, written in layouts_of(L, v, [], False):
        if kind != "return":
            continue
        w = L.parse(written)
        if w is None:
            continue
        for st, kind, again in layouts_of(L, w, [], False):
            if kind == "return" and [x[:3] if is_hole(x) else x for x in again] != [x[:3] if is_hole(x) else x for x in written]:
                out.append(("unstable", construct(normal(v)), written, f"formatted again it is {show(again)!r}"))
    return out


def spelled(cs):
    out = []
    for c in cs:
        line = dict(c[4])["line"]
        out.append(line[1] if line[0] == "str" else show(parts_of(line)))
    return out


def comment_names(lines):
    """The names of the comments in a list of lines, which have to consist of nothing else. Empty comments have the empty name."""
    out = []
    for line in lines:
        names = re.findall(r"c\d+;", line)
        rest = re.sub(r"c\d+;", "", line).replace("#", "").strip()
        out += names + ([rest] if rest or not names else [])
    return out


def nodes(v):
    if isinstance(v, tuple):
        if len(v) == 3 and isinstance(v[0], str) and isinstance(v[2], tuple) and v[0] not in ("hole", "lex", "str", "int"):
            yield v
        for x in v:
            yield from nodes(x)


DULL = {"seq", "alt", "tuple", "Module", "FunctionDefinition", "Lambda", "Block", "TypeAlias", "Reference", "Variable", "vec", "Some", "None", "Number", "FloatingPoint"}


def construct(v):
    """The kinds of nodes of a syntax tree which tell it from others."""
    out = []
    for n in nodes(v):
        k = n[1] if isinstance(n[1], str) and n[1] else n[0]
        k = k.split("::")[-1]
        if k not in DULL and k not in out:
            out.append(k)
    return "/".join(out[:3])


def contrast(a, b):
    """The kinds of the nodes where two syntax trees differ."""
    while True:
        nxt = None
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 and a[:2] == b[:2] and isinstance(a[2], tuple) and isinstance(b[2], tuple) and len(a[2]) == len(b[2]):
            for x, y in zip(a[2], b[2]):
                if x != y:
                    nxt = (x[1], y[1]) if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) == 2 and x[0] == y[0] else (x, y)
                    break
        if nxt is None:
            return kind_of(a) + "/" + kind_of(b)
        a, b = nxt


JUDGES = {"preserved": preserved, "kept": kept, "stable": stable}


def examine(task):
    judge, items, layout, broken = task
    try:
        return task, JUDGES[judge](language(), laid(items, layout), broken)
    except Exception as e:
        return task, f"{type(e).__name__ if not isinstance(e, (Limit, Unsupported)) else ''} {e}"[:300]


def run(check, tasks, what):
    """Judges texts until the time is over or enough is found."""
    L = language()
    count = refused = 0
    undecided = {}
    cut = False
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for task, r in pool.imap_unordered(examine, tasks, 16):
            if isinstance(r, str):
                k = re.sub(r"\d+", "#", r)[:80]
                undecided[k] = undecided.get(k, 0) + 1
                continue
            if r is None:
                refused += 1
                continue
            count += 1
            check.ok(what)
            for kind, key, written, message in r:
                text = " ".join(show(laid(task[1], "flat")).split()) if not isinstance(task[2], tuple) else show(laid(task[1], task[2])).strip()
                check.violation(f"{kind}:{key}", f"{message}: {text!r} is formatted as {show(written)!r}", place(L, kind, key))
            if len(check.violations) >= 6 or time.time() - check.start > (DEADLINE if check.tier == "quick" else 840):
                cut = True
                pool.terminate()
                break
    check.note(f"{what}: {count} texts decided, {refused} not accepted by the parser, {sum(undecided.values())} undecided" + (", stopped early" if cut else ""))
    for k, n in sorted(undecided.items(), key=lambda x: -x[1])[:5]:
        check.note(f"undecided {n} times: {k}")


def place(L, kind, key):
    """The formatter's function for a kind of node, or its entry."""
    F = L.F["format"]
    bodies = [b for b in F.bodies if "mir" in b and b["kind"] != "Closure"]
    for word in key.split("/"):
        for b in bodies:
            for l in b["mir"]["locals"][1:b["mir"].get("args", 2) + 1]:
                if F.types[l].split("::")[-1] == word and F.types[l].startswith("&"):
                    return f"{b['file']}:{b['line']}"
    for b in bodies:
        if b["path"] == "format::format":
            return f"{b['file']}:{b['line']}"
    return "lib/format"


def begin(check, rule):
    check.rule(rule)
    check.rule("Names, numbers, strings, and whole sub-expressions, types, blocks and functions are opaque: each decision is for all of their spellings.")
    try:
        return language()
    except (Limit, Unsupported) as e:
        check.note(f"undecided: the grammar is out of reach: {e}")
        return None


def end(check, L):
    check.analysed(b["path"] for n in ("parse", "format", "ast", "position") for b in L.F[n].bodies if "mir" in b and b["path"] in L.g.I.analysed | L.L.I.analysed)
    # Workers' analyses are not seen here; one text stands for them.
    check.note(f"holes: {', '.join(sorted(x.split('::')[-1] for x in L.holes))}; kernels: " + ", ".join(f"{o.split('::')[-1]} {len(L.kernel(o))}" for o in sorted(L.holes)))


def sample(L):
    """Interprets the tools on some texts in this process, so that their functions are counted."""
    for o in sorted(L.holes):
        for items in L.kernel(o)[:80]:
            examine(("preserved", L.inside(o, items), "lines", (False,)))


def program(check):
    """B01."""
    L = begin(check, "For every text of the families which the parser accepts: the parser accepts what the formatter writes for it, and reads the same syntax tree (up to positions, the order of imports, and the grouping of unions).")
    if L is None:
        return
    thorough = check.tier == "thorough"
    sample(L)
    tasks = []
    for items in singles(L, 2):
        tasks += [("preserved", items, layout, (False, True)) for layout in ["flat", "lines"] + list(range(places(items)))]
    run(check, tasks, "single constructs in all layouts")
    if not check.violations:
        if thorough:
            tasks = [("preserved", items, layout, (False, True)) for items in pairs(L, True) for layout in ("flat", "lines")]
        else:
            tasks = [("preserved", items, "flat", (False,)) for items in pairs(L, which="w")] + [("preserved", items, "lines", (True,)) for items in pairs(L)]
        run(check, tasks, "constructs within constructs")
    if not check.violations:
        run(check, [("preserved", items, "lines", (False,)) for items in neighbours(L, thorough)], "constructs next to constructs")
    end(check, L)


def remarks(check):
    """B02."""
    L = begin(check, "For every text of the families with comments in its blank places which the parser accepts: the comments of what the formatter writes have the text of each comment once, and the syntax tree is the same.")
    if L is None:
        return
    thorough = check.tier == "thorough"
    sample(L)
    tasks = [("kept", items, layout, (False,)) for items in singles(L, 2) for layout in comments(places(items))]
    run(check, tasks, "comments at the places of single constructs")
    if not check.violations:
        tasks = []
        for items in pairs(L, thorough, "bw" if thorough else "b"):
            n = places(items)
            tasks += [("kept", items, (space, tuple(range(n))), (False,)) for space in ("\n " if thorough else "\n")]
        run(check, tasks, "comments at all places of nested constructs")
    end(check, L)


def again(check):
    """B03."""
    L = begin(check, "For every text of the families without comments which the parser accepts: formatting what the formatter writes gives the same text.")
    if L is None:
        return
    thorough = check.tier == "thorough"
    sample(L)
    tasks = []
    for items in singles(L, 2):
        items = solid(L, items)
        tasks += [("stable", items, layout, (False,)) for layout in ["flat", "lines"] + list(range(places(items)))]
    run(check, tasks, "single constructs in all layouts")
    if not check.violations:
        run(check, [("stable", solid(L, items), layout, (False,)) for items in pairs(L, False) for layout in (("flat", "lines") if thorough else ("lines",))], "constructs within constructs")
    end(check, L)
