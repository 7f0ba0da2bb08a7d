REGISTRY = {
    "A01": ("arc", "counting", "abstract interpretation of the type-checked program (MIR) over classes of the reference count"),
    "A02": ("arc", "exclusive", "abstract interpretation of the type-checked program (MIR) over classes of the reference count"),
}
REGISTRY["A03"] = ("anyvalue", "values", "abstract interpretation of the type-checked program (MIR) with ownership accounting")
REGISTRY["A04"] = ("ffiruntime", "stack", "abstract interpretation of the type-checked program (MIR) with symbolic memory layouts")
REGISTRY["A05"] = ("ffiruntime", "suspension", "abstract interpretation of the type-checked program (MIR): closure of the suspension protocol's state space")
REGISTRY["A06"] = ("bridge", "awaiting", "abstract interpretation of the type-checked program (MIR) with asynchronous bodies run against the suspension protocol")
REGISTRY["A07"] = ("bridge", "exporting", "abstract interpretation of the type-checked program (MIR), macro output included, with asynchronous bodies run against the suspension protocol")
REGISTRY["A08"] = ("values", "conversions", "abstract interpretation of the type-checked program (MIR): contents of allocated blocks")
REGISTRY["A09"] = ("values", "threads", "type-level witnesses: programs which the type checker has to accept or to reject")
REGISTRY["A10"] = ("values", "layouts", "analysis of data types' representations and layouts, and abstract interpretation of their constructors (MIR)")
REGISTRY["A11"] = ("values", "closures", "abstract interpretation of the type-checked program (MIR) with ownership accounting")
TEXTS = "abstract interpretation of the type-checked parser and formatter (MIR) over families of texts with opaque pieces and holes, derived from the grammar which the parser's combinators spell"
REGISTRY["B01"] = ("formatting", "program", TEXTS)
REGISTRY["B02"] = ("formatting", "remarks", TEXTS)
REGISTRY["B03"] = ("formatting", "again", TEXTS)
PARSED = "abstract interpretation of the type-checked parser (MIR) over families of texts with opaque pieces and holes, against a reference"
REGISTRY["B04"] = ("reading", "operations", PARSED + " table of priorities")
REGISTRY["B05"] = ("reading", "reading", PARSED + " with other blanks, comments and names")
REGISTRY["B06"] = ("reading", "positions", PARSED + " of the nodes' places")
REGISTRY["B07"] = ("docs", "documentation", "abstract interpretation of the type-checked documentation generator, formatter and parser (MIR) over families of modules, against a reference")
REGISTRY["C01"] = ("packages", "border", "cross-language signature analysis: declarations in package sources against types and layouts of the type-checked Rust crates")
REGISTRY["C02"] = ("systems", "operations", "abstract interpretation of the type-checked packages (MIR), asynchronous bodies included, with operations of the system as effects, against a table of what each function is for")
REGISTRY["C03"] = ("library", "results", "abstract interpretation of the type-checked packages (MIR) over families of strings with opaque characters and cells of numbers, against a reference")
REGISTRY["C04"] = ("services", "runtime", "abstract interpretation of the type-checked runtimes (MIR), asynchronous bodies included, with allocations, tasks and channels as effects")
PASSED = "abstract interpretation of the type-checked compiler passes (MIR) over families of programs, whose results are judged "
REGISTRY["D01"] = ("compiling", "ownership", PASSED + "by ownership accounting over all paths")
REGISTRY["D02"] = ("compiling", "meaning", PASSED + "by symbolic evaluation over all paths, before and after")
