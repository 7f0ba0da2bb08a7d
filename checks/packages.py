"""Packages: the border between their sources in the language and in Rust: C01."""
import glob, os, re
import facts, pen

FFI = "pen_ffi::"
BUILT_IN = {"number": ("pen_ffi::number::Number",), "string": ("pen_ffi::string::ByteString",), "boolean": ("pen_ffi::boolean::Boolean", "bool"),
            "none": ("pen_ffi::none::None",), "any": ("pen_ffi::any::Any",), "error": ("pen_ffi::error::Error",)}
# What the compiler's own code calls: name, convention, type.
NUMBER, STRING, NONE, ANY = (("name", n) for n in ("number", "string", "none", "any"))
RUNTIME = [("_pen_spawn", None, ("function", [("function", [], ANY)], ("function", [], ANY))), ("_pen_race", None, ("function", [("list", ("list", ANY))], ("list", ANY))),
           ("_pen_yield", None, ("function", [], NONE)), ("_pen_debug", '"c"', ("function", [STRING], NONE))]
HEAP = {"_pen_malloc": (["usize"], "*mut u8"), "_pen_realloc": (["*mut u8", "usize"], "*mut u8"), "_pen_free": (["*mut u8"], "()"), "_pen_unreachable": ([], None)}


def strip_arc(t):
    m = re.fullmatch(r"pen_ffi::arc::Arc<(.*)>", t)
    return m and m.group(1)


def continuation(t):
    """The result type of a continuation function."""
    m = re.fullmatch(r"for<'a> (?:unsafe )?extern \"C\" fn\(&'a mut pen_ffi::cps::async_stack::AsyncStack(?:<.*>)?, (.*)\)", t)
    return m and m.group(1)


class Border:
    def __init__(self, check, package, crates):
        self.check, self.package, self.crates = check, package, crates
        self.adts = {p: a for c in crates for p, a in c.adts.items()}

    def agree(self, module, t, rust, seen=()):
        """None, or how the types disagree."""
        t = self.package.resolve(module, t)
        if t[0] == "unknown":
            return None
        rust = rust.replace("core::option::Option", "")
        if t[0] == "name":
            return None if rust in BUILT_IN[t[1]] else f"{t[1]} is not {rust}"
        if t[0] == "function":
            return None if rust == FFI + "closure::Closure" or rust.startswith(FFI + "closure::Closure<") else f"a function is not {rust}"
        if t[0] == "list":
            return None if rust == FFI + "list::List" else f"a list is not {rust}"
        if t[0] == "union":
            return None if rust in (FFI + "any::Any", FFI + "extra::result::Result") else f"a union is not {rust}"
        if t[0] == "map":
            return f"a map is not {rust}"
        _, name, fields, home = t
        if (name, rust) in seen:
            return None
        inner = strip_arc(rust)
        if inner is None:
            a = self.adts.get(rust)
            if a is None or a["kind"] != "struct":
                return f"the record {name} is not {rust}"
            own = a["variants"][0]["fields"]
            if not fields:
                return None if not own or a.get("size") == 0 else f"the record {name} is empty, but {rust} is not"
            if not (a["repr_c"] or a["transparent"]) or len(own) != 1:
                return f"{rust} does not have the layout of a reference to the record {name}"
            inner = strip_arc(own[0]["ty"])
            if inner is None:
                # A newtype of a newtype.
                return self.agree(module, t, own[0]["ty"], seen + ((name, rust),)) if own[0]["ty"] in self.adts else f"{rust} is not a reference to the record {name}"
        if not fields:
            return f"the record {name} is empty, but {rust} is a reference"
        if len(fields) == 1 and self.package.resolve(home, fields[0][1]) == ("name", "any") and inner == FFI + "any::Any":
            return None
        b = self.adts.get(inner)
        if b is None or b["kind"] != "struct":
            wrong = self.agree(home, fields[0][1], inner, seen + ((name, rust),)) if len(fields) == 1 else f"the record {name} has {len(fields)} fields, but {inner} is one value"
            return wrong
        if not (b["repr_c"] or b["transparent"] and len(fields) == 1):
            return f"{inner}, which is the contents of the record {name}, does not have a fixed layout"
        own = [f for f in b["variants"][0]["fields"] if not f["ty"].startswith("core::marker::PhantomData")]
        if len(own) != len(fields):
            return f"the record {name} has {len(fields)} fields, but {inner} has {len(own)}"
        names, theirs = [n.lower() for n, _ in fields], [f["name"].replace("_", "") for f in own]
        if sorted(names) == sorted(theirs) and names != theirs:
            return f"the fields of the record {name} are in another order in {inner}"
        for (n, x), f in zip(fields, own):
            wrong = self.agree(home, x, f["ty"], seen + ((name, rust),))
            if wrong:
                return f"the field {n} of the record {name}: {wrong}"
        return None

    def shape(self, f):
        """(suspendable, parameter types, result type) of a Rust function at the border."""
        inputs, output = f["inputs"], f["output"]
        if len(inputs) >= 2 and "AsyncStack" in inputs[0] and continuation(inputs[1]):
            return True, inputs[2:], continuation(inputs[1])
        if len(inputs) >= 2 and "cps::stack::Stack" in inputs[0]:
            return True, inputs[2:], None
        return False, inputs, output

    def compare(self, module, name, convention, t, f, where):
        check = self.check
        asynchronous, inputs, output = self.shape(f)
        if len(inputs) != len(t[1]):
            # Values of no size are passed as nothing.
            inputs = [i for i in inputs if self.adts.get(i, {}).get("size") != 0]
        if f["abi"] != '"C"':
            check.violation(f"abi:{name}", f"{name} does not have the calling convention of C", where)
        check.require(asynchronous == (convention is None), "calling conventions", f"convention:{name}",
                      f"{name} is {'suspendable' if asynchronous else 'not suspendable'}, but the sources of the package take it for the opposite", where)
        if not check.require(len(inputs) == len(t[1]), "parameter counts", f"arity:{name}", f"{name} has {len(inputs)} parameters, but the sources of the package give it {len(t[1])}", where):
            return
        for i, (x, r) in enumerate(zip(t[1], inputs)):
            wrong = self.agree(module, x, r)
            check.require(wrong is None, "parameter types", f"parameter:{name}:{i}", f"parameter {i + 1} of {name}: {wrong}", where)
        if output is not None:
            wrong = self.result(module, t[2], output, f)
            check.require(wrong is None, "result types", f"result:{name}", f"the result of {name}: {wrong}", where)

    def result(self, module, t, output, f):
        t = self.package.resolve(module, t)
        if output == "()":
            return "it is none, but the function returns nothing" if t != ("name", "none") else None
        fallible = t[0] == "union" and ("name", "error") in [self.package.resolve(module, x) for x in t[1]]
        if fallible != (output == FFI + "extra::result::Result"):
            return f"it is {'' if fallible else 'not '}fallible in the sources of the package, but {output} in Rust"
        if not fallible:
            return self.agree(module, t, output)
        # What the body gives back when it succeeds.
        runs = [g for c in self.crates for g in c.items["fns"] if g["path"].startswith(f["path"] + "::") and g["path"].endswith("::run")]
        rest = [x for x in t[1] if self.package.resolve(module, x) != ("name", "error")]
        for g in runs:
            m = re.search(r"core::result::Result<(.*)>", g["output"])
            if m and len(rest) == 1:
                inner, depth = "", 0
                for c in m.group(1):
                    if c == "," and not depth:
                        break
                    depth += (c in "<(") - (c in ">)")
                    inner += c
                return self.agree(module, rest[0], FFI + "none::None" if inner == "()" else inner)
        return None


def groups():
    out = {}
    for d in facts.PACKAGES:
        out.setdefault(d.split("/")[0], []).append(f"pkg:{d}")
    return out


def line_of(module, line):
    return f"{os.path.relpath(module.path, facts.REPO)}:{line}"


def border(check):
    """C01."""
    check.rule("Each foreign function which a package's sources import or export has one counterpart in Rust, with the same calling convention, number of parameters, and types; records have the fields of the Rust structures they are, in order.")
    packages = {os.path.basename(p): pen.Package(p) for p in sorted(glob.glob(f"{facts.REPO}/packages/*")) if os.path.isdir(p)}
    loaded = {n: [c for g in gs for c in facts.load(g).values()] for n, gs in groups().items()}
    library = facts.load("ffi")["pen_ffi"]
    used = set()
    for name, package in packages.items():
        crates = loaded.get(name, [])
        if name == "ffi":
            crates = [library]
        B = Border(check, package, crates)
        exports, imports = {}, {}
        for c in crates:
            for f in c.items["fns"]:
                symbol = f.get("link_name") or f["path"].split("::")[-1]
                if f["foreign"]:
                    imports.setdefault(symbol, f)
                elif f.get("no_mangle"):
                    if symbol in exports and not symbol.startswith("_pen_main"):
                        check.violation(f"twice:{symbol}", f"{symbol} is defined twice", f"{f['file']}:{f['line']}")
                    exports[symbol] = f
        for m in package.modules.values():
            for symbol, convention, t, line in m.imports:
                if check.require(symbol in exports, "imported functions", f"missing:{symbol}", f"{symbol} is imported, but not defined in Rust", line_of(m, line)):
                    used.add((name, symbol))
                    B.compare(m, symbol, convention, t, exports[symbol], line_of(m, line))
                    check.analysed([exports[symbol]["path"]])
            for symbol, convention, t, line in m.exports:
                if symbol in imports:
                    B.compare(m, symbol, convention, t, imports[symbol], line_of(m, line))
                    check.analysed([imports[symbol]["path"]])
        exported = {s for m in package.modules.values() for s, *_ in m.exports}
        for symbol, f in imports.items():
            if symbol.startswith(("_pen_", "pen_")) and symbol != "_pen_main":
                where = f"packages/{name}/{f['file']}:{f['line']}" if name != "ffi" else f"{f['file']}:{f['line']}"
                check.require(symbol in exported, "functions which Rust imports", f"missing:{symbol}", f"{symbol} is imported in Rust, but no source of the package defines it", where)
        if name in ("os", "os-sync"):
            module = next(iter(package.modules.values()))
            penned = {s: (c, t, m, l) for m in package.modules.values() for s, c, t, l in m.exports}
            for symbol, convention, t in RUNTIME:
                if symbol in exports:
                    B.compare(module, symbol, convention, t, exports[symbol], f"packages/{name}/{exports[symbol]['file']}:{exports[symbol]['line']}")
                elif check.require(symbol in penned, "runtime functions", f"missing:{name}:{symbol}", f"the package {name} does not define {symbol}, which compiled programs call", f"packages/{name}"):
                    c, u, m, l = penned[symbol]
                    check.require(c == convention and erase(u) == erase(t), "runtime functions", f"type:{symbol}", f"{symbol} does not have the type which compiled programs call it with", line_of(m, l))
            for symbol, (inputs, output) in HEAP.items():
                if check.require(symbol in exports, "runtime functions", f"missing:{name}:{symbol}", f"the package {name} does not define {symbol}, which compiled programs call", f"packages/{name}"):
                    f = exports[symbol]
                    check.require(f["inputs"] == inputs and output in (None, f["output"]) and f["abi"] == '"C"', "runtime functions", f"type:{symbol}",
                                  f"{symbol} does not have the type which compiled programs call it with", f"packages/{name}/{f['file']}:{f['line']}")
    # Systems are interchangeable: the same contexts.
    a, b = packages.get("os"), packages.get("os-sync")
    if a and b:
        for path in sorted(set(a.modules) & set(b.modules)):
            for n, t in a.modules[path].types.items():
                if n[:1].isupper() and n in b.modules[path].types:
                    check.require(erase(t) == erase(b.modules[path].types[n]) or n == "InnerContext", "types of systems", f"system:{path}:{n}",
                                  f"the type {n} of {path} differs between the packages os and os-sync", line_of(b.modules[path], 1))


def erase(t):
    if isinstance(t, (tuple, list)):
        return tuple(erase(x) for x in t)
    return t
