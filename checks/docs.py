"""Generated documentation: B07."""
import itertools, multiprocessing, re, sys, time
import functional, texts
from texts import *
from formatting import language, begin, DEADLINE
import reading

MAPS = {}


def on(*names):
    def decorate(f):
        for n in names:
            MAPS[n] = f
        return f
    return decorate


@on("alloc::collections::btree::map::BTreeMap::iter")
def _(I, st, frame, f, args, t, stack):
    place, xs = functional.elements(I, st, args[0])
    if xs is None:
        return None
    return functional.ret(st, functional.iterator([functional.tuple_of(temporary(st, field(x, "0")), temporary(st, field(x, "1"))) for x in xs]))


@on("alloc::collections::btree::map::BTreeMap::keys", "alloc::collections::btree::map::BTreeMap::values")
def _(I, st, frame, f, args, t, stack):
    place, xs = functional.elements(I, st, args[0])
    if xs is None:
        return None
    return functional.ret(st, functional.iterator([temporary(st, field(x, "0" if f[1].endswith("keys") else "1")) for x in xs]))


@on("std::collections::hash::set::HashSet::contains", "hashbrown::set::HashSet::contains")
def _(I, st, frame, f, args, t, stack):
    return functional.M["core::slice::<impl [T]>::contains"](I, st, frame, f, args, t, stack)


@on("core::convert::Into::into", "<T as core::convert::Into<U>>::into")
def _(I, st, frame, f, args, t, stack):
    if f[3][-1:] == ("alloc::string::String",) and args[0][0] == "ref":
        v = functional.val(I, st, args[0])
        if v[0] in ("str", "text", "lex"):
            return functional.ret(st, v)
    return layout.into(I, st, frame, f, args, t, stack)


@on("alloc::string::ToString::to_string", "<T as alloc::string::ToString>::to_string")
def _(I, st, frame, f, args, t, stack):
    return functional.display(functional.Ctx(I, frame, t, stack), st, "display", args[0])


@on("core::iter::traits::collect::IntoIterator::into_iter")
def _(I, st, frame, f, args, t, stack):
    if args[0][0] == "ref" and args[0][1] == getattr(I, "modules", None):
        return MAPS["alloc::collections::btree::map::BTreeMap::iter"](I, st, frame, f, args, t, stack)
    return functional.M["core::iter::traits::collect::IntoIterator::into_iter"](I, st, frame, f, args, t, stack)


DOCUMENTER = None


def documenter(L):
    global DOCUMENTER
    if DOCUMENTER is None:
        F = L.F
        DOCUMENTER = layout.Layout([F["doc"], F["format"], F["ast"], F["position"]])
        DOCUMENTER.I.models.update(MAPS)
    return DOCUMENTER


def words(s):
    return ("str", s)


def path_value(L, source):
    """A module path, by way of an import of it."""
    pack, *rest = source.split("'")
    shown = "'".join([pack] + [c.capitalize() for c in rest]) if pack else source
    v = functional.unbox(L.parse(list(f"import {shown}\n")))
    i = functional.listed(functional.unbox(dict(v[4])["imports"]))[0]
    path = next(functional.unbox(x) for n, x in functional.unbox(i)[4] if functional.unbox(x)[2].endswith("ModulePath"))
    return renamed(path, {c.capitalize(): c for c in rest}) if pack else path


def renamed(v, names):
    if v[0] == "str":
        return ("str", names.get(v[1], v[1]))
    return ("rec", *v[1:4], tuple((n, renamed(x, names)) for n, x in v[4])) if v[0] == "rec" else v


def generate(L, modules, private):
    """What is written for modules: (path, source) pairs."""
    D = documenter(L)
    package = rec("doc::Package", "Package", [(n, words(f"<{n}>")) for n in ("name", "url", "description", "type_")])
    configuration = rec("doc::Configuration", "Configuration", [("language", words("pen")), ("private_names", vec([words(x) for x in private]))])
    ms = []
    for path, source in modules:
        m, cs = L.parse(list(source)), L.parse_comments(list(source))
        if m is None or cs is None:
            raise Unsupported("a module is not read")
        ms.append(tuple_of(path_value(L, path), tuple_of(m, vec(cs))))
    out = D.run("doc::generate", [package, vec(ms), configuration])
    if len(out) != 1 or not all(isinstance(x, str) for x in out[0][2]):
        raise Unsupported(f"the documentation is undecided: {len(out)} outcomes")
    return out[0][1], "".join(out[0][2])


# ---- sources --------------------------------------------------------------------------------------------------------
# Kinds of definitions: (name, text, what has to be shown, what must not be)
KINDS = {
    "alias": lambda i: (f"Alias{i}", f"type Alias{i} = Target{i}", [f"type Alias{i} = Target{i}"], []),
    "hidden alias": lambda i: (None, f"type alias{i} = Target{i}", [], [f"alias{i}", f"Target{i}"]),
    "open": lambda i: (f"Open{i}", f"type Open{i} {{\n  Foo{i} Target{i}\n}}", [f"Foo{i} Target{i}"], []),
    "empty": lambda i: (f"Empty{i}", f"type Empty{i} {{\n}}", [f"type Empty{i} {{"], []),
    "closed": lambda i: (f"Closed{i}", f"type Closed{i} {{\n  foo{i} Target{i}\n}}", [f"type Closed{i} {{"], [f"foo{i}", f"Target{i}"]),
    "half": lambda i: (f"Half{i}", f"type Half{i} {{\n  Foo{i} Target{i}\n  foo{i} Target{i}\n}}", [f"type Half{i} {{"], [f"foo{i}", f"Foo{i}", f"Target{i}"]),
    "late": lambda i: (f"Late{i}", f"type Late{i} {{\n  foo{i} Target{i}\n  Foo{i} Target{i}\n}}", [f"type Late{i} {{"], [f"foo{i}", f"Foo{i}", f"Target{i}"]),
    "hidden record": lambda i: (None, f"type open{i} {{\n  Foo{i} Target{i}\n}}", [], [f"Foo{i}", f"open{i}", f"Target{i}"]),
    "listed": lambda i: (None, f"type Private{i} = Target{i}", [], [f"Private{i}", f"Target{i}"]),
    "function": lambda i: (f"Function{i}", f"Function{i} = \\(x{i} Target{i}) Result{i} {{\n  body{i}\n}}", [f"x{i} Target{i}", f"Result{i}"], [f"body{i}"]),
    "exported": lambda i: (f"Exported{i}", f"foreign \"c\" Exported{i} = \\() Result{i} {{\n  body{i}\n}}", [f"Result{i}"], [f"body{i}"]),
    "hidden function": lambda i: (None, f"function{i} = \\(x{i} Target{i}) Result{i} {{\n  Body{i}\n}}", [], [f"function{i}", f"x{i}", f"Target{i}", f"Body{i}"]),
    "underscored": lambda i: (None, f"_Function{i} = \\() Result{i} {{\n  Body{i}\n}}", [], [f"_Function{i}", f"Result{i}", f"Body{i}"]),
    "listed function": lambda i: (None, f"Private{i} = \\() Result{i} {{\n  Body{i}\n}}", [], [f"Private{i}", f"Result{i}", f"Body{i}"]),
}
KINDS["wide alias"] = lambda i: (f"Wide{i}", f"type Wide{i} = [Target{i}] | {{string: \\(number, none) pack'Target{i}}} | any", [], [])
KINDS["wide record"] = lambda i: (f"Broad{i}", f"type Broad{i} {{\n  Foo{i} \\(number | none) none\n  Bar{i} [[boolean] | error]\n}}", [], [])
KINDS["wide function"] = lambda i: (f"Function{i}", f"Function{i} = \\(x{i} [number | none], y{i} \\(x'Target{i}) (\\() none)) {{string: any}} | error {{\n  body{i}\n}}", [], [f"body{i}"])
KINDS["broken function"] = lambda i: (f"Function{i}", f"Function{i} =\n\n  \\(x{i} Target{i}) none {{\n  body{i}\n}}", [], [f"body{i}"])
KINDS["broken exported"] = lambda i: (f"Exported{i}", f"foreign\n\nExported{i} = \\() none {{\n  body{i}\n}}", [], [f"body{i}"])
# Kinds whose definition is shown in part.
HIDDEN = ("closed", "half", "late")
TYPES = [k for k in KINDS if KINDS[k](0)[1].startswith("type")]
FUNCTIONS = [k for k in KINDS if k not in TYPES]
PRIVATE = [f"Private{i}" for i in range(9)]
GAPS = ["", "\n", "# @\n", "# @\n# @\n", "# @\n\n", "# @\n\n# @\n", "# @\n# @\n\n# @\n# @\n", "\n# @\n", "# @\n\n\n"]


def source(kinds, gaps):
    """A module of definitions with gaps in front of them."""
    text, n = "", 0
    for i, (k, g) in enumerate(zip(kinds, gaps)):
        while "@" in g:
            g = g.replace("@", f"c{n};", 1)
            n += 1
        text += g + KINDS[k](i)[1] + "\n"
    g = gaps[len(kinds)] if len(gaps) > len(kinds) else ""
    while "@" in g:
        g = g.replace("@", f"c{n};", 1)
        n += 1
    return text + g


def block_above(lines, n):
    """The comments right above a line."""
    out = []
    while n > 0 and lines[n - 1].startswith("#"):
        n -= 1
        out.insert(0, lines[n][1:].strip())
    return out


def described(L, kinds, gaps, public):
    """The documentation of one module."""
    text = source(kinds, gaps)
    lines = text.split("\n")
    end, written = generate(L, [("'Module" if public else "'module", text)], PRIVATE)
    if end != "return":
        return [("panics", f"generating documentation of {text!r} does not return")]
    out = []
    headings = re.findall(r"(?m)^#+ .*$", re.sub(r"(?ms)^```.*?^```$", "", written))
    shown = [KINDS[k](i)[0] for i, k in enumerate(kinds) if KINDS[k](i)[0] is not None]
    shown = [x for x in shown if x and not x.startswith(("Function", "Exported"))] + [x for x in shown if x.startswith(("Function", "Exported"))]
    titles = [h for h in headings if any(x.strip("`") in KINDS_NAMES for x in re.split(r"[^\w`]", h))]
    found = [re.sub(r"[^\w]", "", h) for h in titles]
    if not public:
        leaked = [w for w in re.findall(r"\w+;?", text) if re.search(r"\d", w) and w in written]
        return [("module", f"documentation shows `{leaked[0]}` of a module which is not public: {text!r}")] if leaked else []
    if found != shown:
        out.append(("definitions", f"documentation of {text!r} lists {found} rather than {shown}"))
        return out
    parts = re.split("|".join(re.escape(h) + "\n" for h in titles), written) if titles else [written]
    head, sections = parts[0], dict(zip(found, parts[1:]))
    line = 0
    expected = {}
    for i, k in enumerate(kinds):
        name, spelled_out, wanted, unwanted = KINDS[k](i)
        line = at = next(j for j, l in enumerate(lines) if l == spelled_out.split("\n")[0] and (not i or j > line))
        if name:
            expected[name] = block_above(lines, at)
            for w in wanted:
                if w not in sections[name]:
                    out.append((f"contents:{k}", f"documentation of {text!r} does not show `{w}`"))
        for w in unwanted:
            if re.search(r"\b" + re.escape(w) + r"\b", written):
                out.append((f"leak:{k}", f"documentation of {text!r} shows `{w}`"))
    for i, k in enumerate(kinds):
        name, spelled_out, *_ = KINDS[k](i)
        if name is None or k in HIDDEN:
            continue
        code = re.findall(r"(?ms)^```pen\n(.*?)\n```$", sections[name])
        if len(code) != 1:
            out.append(("shown", f"documentation of {text!r} shows the definition of `{name}` {len(code)} times"))
            continue
        original = spelled_out if k in TYPES else re.sub(r"(?s)\{\n.*", "{\n  x\n}", spelled_out)
        again = code[0] + "\n" if k in TYPES else re.sub(r"(?s)\\.*", "", spelled_out) + code[0] + " {\n  x\n}\n"
        a, b = (normal(m) if m is not None else None for m in (L.parse(list(original + "\n")), L.parse(list(again))))
        if a is None or a != b:
            out.append(("shown", f"documentation of {text!r} shows `{name}` as {code[0]!r}"))
    for name, section in sections.items():
        got = re.findall(r"c\d+;", section)
        if got != expected[name]:
            out.append(("comments", f"documentation of {text!r} describes `{name}` by {got} rather than by {expected[name]}"))
    # A block at the top which is not that of the first definition describes the module.
    top = []
    while len(top) < len(lines) and lines[len(top)].startswith("#"):
        top.append(lines[len(top)][1:].strip())
    if kinds and lines[len(top)].strip():
        top = []
    if re.findall(r"c\d+;", head) != top:
        out.append(("module comments", f"documentation of {text!r} describes the module by {re.findall(r'c[0-9]+;', head)} rather than by {top}"))
    return out[:2]


KINDS_NAMES = {KINDS[k](i)[0] for k in KINDS for i in range(9)} | {re.match(r"(?:foreign\s+(?:\"c\" )?|type )?(\w+)", KINDS[k](i)[1]).group(1) for k in KINDS for i in range(9)}


def together(L, paths):
    """Which modules of a package are in its documentation."""
    ms = [(p, f"type Mark{i} = Target{i}\n") for i, p in enumerate(paths)]
    end, written = generate(L, ms, [])
    if end != "return":
        return [("panics", "generating documentation does not return")]
    out = []
    for i, p in enumerate(paths):
        public = all(c[:1].isupper() for c in p.split("'")[1:])
        n = len(re.findall(rf"(?m)^#+ `Mark{i}`", written))
        if n != int(public):
            out.append(("modules", f"documentation of a package shows the module {p} {n} times"))
        if public and f"`{p}` module" not in written:
            out.append(("modules", f"documentation of a package does not name the module {p}"))
    order = [int(x) for x in re.findall(r"(?m)^#+ `Mark(\d)`", written)]
    if order != sorted(order):
        out.append(("modules", "documentation of a package is not in the order of its modules"))
    for w in ("<name>", "<url>", "<description>", "<type_>"):
        if w not in written:
            out.append(("package", f"documentation of a package does not have its {w}"))
    return out


PLACES = {"definitions": "compile_type_definitions", "contents": "compile_type_definition", "leak": "compile_type_definition", "comments": "compile_last_block_comment",
          "module comments": "compile_first_block_comment", "modules": "compile_package", "package": "compile_package", "shown": "compile_function_definition"}


def place(L, key):
    F = language().F["doc"]
    for name in (PLACES.get(key.split(":")[0]), "generate"):
        for b in F.bodies:
            if name and b["path"] == f"doc::{name}":
                return f"{b['file']}:{b['line']}"
    return "lib/doc"


reading.JUDGES.update({"described": described, "together": together})


def documentation(check):
    """B07."""
    check.rule("For every module of the family: the documentation has one section for each public definition which is not excluded, in order, with its signature and the comments right above it, and nothing of other definitions, of functions' bodies, or of records with private fields.")
    try:
        L = language()
        documenter(L)
    except (Limit, Unsupported) as e:
        check.note(f"undecided: {e}")
        return
    thorough = check.tier == "thorough"
    tasks = []
    for k in KINDS:
        for g in itertools.product(GAPS, GAPS[:4]):
            tasks.append(("described", (k,), g, True))
        tasks.append(("described", (k,), ("# @\n\n# @\n", "# @\n"), False))
    tasks += [("described", (), (g,), True) for g in GAPS]
    some_gaps = GAPS if thorough else ["", "# @\n", "\n# @\n# @\n", "# @\n\n"]
    for a in KINDS:
        for b in KINDS:
            if a in FUNCTIONS and b in TYPES:
                continue
            for g in itertools.product(some_gaps, repeat=2):
                tasks.append(("described", (a, b), g, True))
    for ks in itertools.product(TYPES, TYPES, FUNCTIONS) if thorough else itertools.product(["alias", "closed", "hidden alias"], ["open", "half"], ["function", "hidden function"]):
        tasks.append(("described", ks, ("# @\n", "# @\n", "# @\n"), True))
    reading.sweep(check, tasks, "modules", place)
    if not check.violations:
        names = ["'Foo", "'foo", "'Foo'Bar", "'Foo'bar", "'foo'Bar", "'_Foo", "Pack'Foo", "pack'Foo", "pack'foo", "Pack'Foo'bar"]
        tasks = [("together", ps) for n in (1, 2, 3) for ps in itertools.permutations(names if n < 3 or thorough else names[:5], n)]
        reading.sweep(check, tasks, "packages", place)
    try:
        described(L, ("alias", "open", "closed", "function", "hidden function"), GAPS[:5], True)
    except (Limit, Unsupported) as e:
        check.note(f"undecided: {e}")
    D = documenter(L)
    check.analysed(b["path"] for n in ("doc", "format", "ast", "position") for b in L.F[n].bodies if "mir" in b and b["path"] in D.I.analysed)
