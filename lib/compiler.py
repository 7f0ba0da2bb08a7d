"""The compiler's intermediate representation as Python terms, and its passes interpreted from their source.

Terms: ("num", n) ("bool", b) ("none",) ("str", s) ("var", x) ("let", x, T, e, e) ("letrec", D, e) ("call", F, f, args)
("if", c, t, e) ("case", e, ((types, x, e)...), (x, e) or None) ("record", R, fields) ("field", R, i, e) ("update", R, e, ((i, e)...))
("concat", es) ("try", e, x, T, e) ("info", e) ("variant", T, e) ("sync", T, e) ("arith", op, l, r) ("cmp", op, l, r)
("clone", {x: T}, e) ("drop", {x: T}, e), with D = ("def", name, environment, arguments, result, body, thunk).
"""
import facts, functional, grammar, hashing
from absint import *

TYPES = "mir::types::"
IR = "mir::ir::"
SCALARS = ("Boolean", "ByteString", "None", "Number", "Variant")


PASSES = ("optimization::string_concatenation", "alpha_conversion", "normalization", "environment_inference", "lambda_lifting", "reference_count")


def entry(name):
    return f"mir::analysis::{name}::transform"


class Stuck(Exception):
    pass


class Refused(Exception):
    """A pass fails."""
    def __init__(self, name, what):
        super().__init__(f"{name}: {what}")
        self.name = name


class Unsupported(Exception):
    pass


class Passes:
    def __init__(self):
        self.F = facts.load("compiler")
        self.I = Interp([self.F["mir"]], models={**functional.M, **hashing.H, **EXTRA}, max_depth=200, unroll=40, max_paths=100000)
        self.I.recursive = True
        self.I.follow = 20000
        self.I.silent = frozenset(["drop"])
        self.crate = self.F["mir"]
        self.frame = {"id": 0, "crate": self.crate, "body": {"path": "verif", "mir": {"locals": []}}, "subst": {}}
        self.adts = self.crate.adts

    def run(self, path, args, st):
        body = self.I.bodies[path]
        out = [x for x in self.I.run(body, args, st, (path,), tuple(self.impls(body)))]
        if len(out) != 1:
            raise Stuck(f"{path}: {len(out)} outcomes")
        s, kind, v = out[0]
        if kind != "return":
            if kind == "panic":
                raise Refused(self.current, "panics")
            raise Stuck(f"{path}: {kind}")
        return s, v

    def impls(self, body):
        return ()

    def stages(self, types, declarations, module):
        """(name, definitions) after each pass."""
        st, m = State(), self.module(types, declarations, list(module.values()))
        for name in PASSES:
            self.current = name
            st.fresh += 1
            root = ("S", "module", st.fresh)
            st.mem[root] = m
            st, v = self.run(entry(name), [("ref", (root, ()))], st)
            if v[0] == "rec" and v[3] in ("Ok", "Err"):
                if v[3] == "Err":
                    raise Refused(name, "an error")
                v = field(v, "0")
            m = v
            yield name, self.unmodule(st, m)

    # ---- encoding ------------------------------------------------------------------------------------------------
    def type(self, t):
        if isinstance(t, str):
            return rec(TYPES + "type_::Type", t, [])
        if t[0] == "fn":
            inner = rec(TYPES + "function::FunctionInner", None, [("arguments", functional.vec([self.type(a) for a in t[1]])), ("result", self.type(t[2]))])
            return rec(TYPES + "type_::Type", "Function", [("0", rec(TYPES + "function::Function", None, [("0", self.rc(inner))]))])
        return rec(TYPES + "type_::Type", "Record", [("0", self.record_type(t))])

    def function_type(self, t):
        return field(self.type(t), "0")

    def record_type(self, t):
        return rec(TYPES + "record::Record", None, [("name", self.rc(("str", t[1])))])

    def rc(self, v):
        return v

    def node(self, name, variant, values):
        """An expression node from the fields in their order."""
        path = next(p for p in self.adts if p.startswith(IR) and p.split("::")[-1] == name)
        a = self.adts[path]
        fields = a["variants"][0]["fields"]
        if len(fields) == 1 and fields[0]["name"] == "0" and path + "Inner" in self.adts:
            inner = path + "Inner"
            v = rec(path, None, [("0", self.rc(self.struct(inner, values)))])
        else:
            v = self.struct(path, values)
        return self.expression_of(variant, v) if variant else v

    def struct(self, path, values):
        names = [f["name"] for f in self.adts[path]["variants"][0]["fields"]]
        if set(names) != set(values):
            raise Stuck(f"fields of {path}: {names}")
        return rec(path, None, [(n, values[n]) for n in names])

    def expression_of(self, variant, *v):
        return rec(IR + "expression::Expression", variant, [(str(i), x) for i, x in enumerate(v)])

    def definition(self, d):
        _, name, environment, arguments, result, body, thunk = d
        argument = lambda a: self.struct(IR + "argument::Argument", {"name": ("str", a[0]), "type_": self.type(a[1])})
        return self.struct(IR + "function_definition::FunctionDefinition", {
            "name": ("str", name), "environment": functional.vec(map(argument, environment)), "arguments": functional.vec(map(argument, arguments)),
            "result_type": self.type(result), "body": self.encode(body), "type_": self.function_type(("fn", tuple(t for _, t in arguments), result)),
            "thunk": integer(int(thunk), "bool")})

    def encode(self, e):
        E, N, V = self.encode, self.node, functional.vec
        k = e[0]
        if k == "num":
            return self.expression_of("Number", ("num", e[1]))
        if k == "bool":
            return self.expression_of("Boolean", integer(int(e[1]), "bool"))
        if k == "none":
            return self.expression_of("None")
        if k == "str":
            return N("ByteString", "ByteString", {"value": ("str", e[1])})
        if k == "var":
            return N("Variable", "Variable", {"name": ("str", e[1])})
        if k == "let":
            return N("Let", "Let", {"name": ("str", e[1]), "type_": self.type(e[2]), "bound_expression": E(e[3]), "expression": E(e[4])})
        if k == "letrec":
            return N("LetRecursive", "LetRecursive", {"definition": self.definition(e[1]), "expression": E(e[2])})
        if k == "call":
            return N("Call", "Call", {"type_": self.function_type(e[1]), "function": E(e[2]), "arguments": V(map(E, e[3]))})
        if k == "if":
            return N("If", "If", {"condition": E(e[1]), "then": E(e[2]), "else_": E(e[3])})
        if k == "case":
            alternatives = [N("Alternative", None, {"types": V(map(self.type, ts)), "name": ("str", x), "expression": E(b)}) for ts, x, b in e[2]]
            default = NONE if e[3] is None else some(N("DefaultAlternative", None, {"name": ("str", e[3][0]), "expression": E(e[3][1])}))
            return N("Case", "Case", {"argument": E(e[1]), "alternatives": V(alternatives), "default_alternative": default})
        if k == "record":
            return N("Record", "Record", {"type_": self.record_type(e[1]), "fields": V(map(E, e[2]))})
        if k == "field":
            return N("RecordField", "RecordField", {"type_": self.record_type(e[1]), "index": integer(e[2], "usize"), "record": E(e[3])})
        if k == "update":
            return N("RecordUpdate", "RecordUpdate", {"type_": self.record_type(e[1]), "record": E(e[2]),
                                                      "fields": V([N("RecordUpdateField", None, {"index": integer(i, "usize"), "expression": E(x)}) for i, x in e[3]])})
        if k == "concat":
            return N("StringConcatenation", "StringConcatenation", {"operands": V(map(E, e[1]))})
        if k == "try":
            return N("TryOperation", "TryOperation", {"operand": E(e[1]), "name": ("str", e[2]), "type_": self.type(e[3]), "then": E(e[4])})
        if k == "info":
            return N("TypeInformationFunction", "TypeInformationFunction", {"variant": E(e[1])})
        if k == "variant":
            return N("Variant", "Variant", {"type_": self.type(e[1]), "payload": E(e[2])})
        if k == "sync":
            return N("Synchronize", "Synchronize", {"type_": self.type(e[1]), "expression": E(e[2])})
        if k in ("arith", "cmp"):
            name = "ArithmeticOperation" if k == "arith" else "ComparisonOperation"
            op = next(p for p in self.adts if p.endswith("::ArithmeticOperator" if k == "arith" else "::ComparisonOperator"))
            return N(name, name, {"operator": rec(op, e[1], []), "lhs": E(e[2]), "rhs": E(e[3])})
        raise Stuck(k)

    def module(self, types, declarations, definitions):
        """Types: {name: field types}; declarations: {name: type}; definitions: (D, public)."""
        V = functional.vec
        return self.struct(IR + "module::Module", {
            "type_definitions": V([self.struct(IR + "type_definition::TypeDefinition", {"name": ("str", n), "type_": self.struct(TYPES + "record_body::RecordBody", {"fields": V(map(self.type, fs))})}) for n, fs in types.items()]),
            "foreign_declarations": V([]), "foreign_definitions": V([]),
            "function_declarations": V([self.struct(IR + "function_declaration::FunctionDeclaration", {"name": ("str", n), "type_": self.function_type(t)}) for n, t in declarations.items()]),
            "function_definitions": V([self.struct(IR + "global_function_definition::GlobalFunctionDefinition", {"definition": self.definition(d), "public": integer(int(p), "bool")}) for d, p in definitions]),
            "type_information": self.struct(IR + "type_information::TypeInformation", {"information": hashing.table("hashmap", []), "fallback": ("str", "fallback")})})

    # ---- decoding ------------------------------------------------------------------------------------------------
    def text(self, st, v):
        v = functional.deep(self.I, st, v)
        if v[0] == "str":
            return v[1]
        if v[0] == "text":
            parts = functional.parts_of(v)
            if all(isinstance(p, str) or p[0] == "str" for p in parts):
                return "".join(p if isinstance(p, str) else p[1] for p in parts)
        raise Stuck(f"name {v}"[:200])

    def items(self, st, v):
        v = functional.deep(self.I, st, v, 0)
        xs = functional.listed(v)
        if xs is None:
            xs = hashing.entries(v)
        if xs is None:
            raise Stuck(f"list {v}"[:200])
        return xs

    def open(self, st, v):
        """The fields of a structure, through its shared inside."""
        v = functional.unbox(functional.val(self.I, st, v))
        if v[0] != "rec":
            raise Stuck(f"structure {v}"[:200])
        fs = dict(v[4])
        if set(fs) == {"0"}:
            return self.open(st, fs["0"])
        return fs

    def untype(self, st, v):
        v = functional.unbox(functional.val(self.I, st, v))
        if v[0] != "rec" or v[2] != TYPES + "type_::Type":
            raise Stuck(f"type {v}"[:200])
        if v[3] == "Function":
            return self.unfunction(st, field(v, "0"))
        if v[3] == "Record":
            return self.unrecord(st, field(v, "0"))
        return v[3]

    def unfunction(self, st, v):
        fs = self.open(st, v)
        return ("fn", tuple(self.untype(st, a) for a in self.items(st, fs["arguments"])), self.untype(st, fs["result"]))

    def unrecord(self, st, v):
        v = functional.unbox(functional.val(self.I, st, v))
        return ("record", self.text(st, field(v, "name")))

    def undefinition(self, st, v):
        fs = self.open(st, v)
        argument = lambda a: (lambda g: (self.text(st, g["name"]), self.untype(st, g["type_"])))(self.open(st, a))
        return ("def", self.text(st, fs["name"]), tuple(map(argument, self.items(st, fs["environment"]))), tuple(map(argument, self.items(st, fs["arguments"]))),
                self.untype(st, fs["result_type"]), self.decode(st, fs["body"]), self.number(st, fs["thunk"]) == 1)

    def number(self, st, v):
        v = functional.val(self.I, st, v)
        if v[0] not in ("int", "num"):
            raise Stuck(f"number {v}"[:200])
        return v[1]

    def decode(self, st, v):
        v = functional.unbox(functional.val(self.I, st, v))
        if v[0] != "rec" or v[2] != IR + "expression::Expression":
            raise Stuck(f"expression {v}"[:300])
        k = v[3]
        if k == "None":
            return ("none",)
        if k == "Number":
            return ("num", self.number(st, field(v, "0")))
        if k == "Boolean":
            return ("bool", self.number(st, field(v, "0")) == 1)
        D = lambda x: self.decode(st, x)
        T = lambda x: self.untype(st, x)
        S = lambda x: self.text(st, x)
        L = lambda x: self.items(st, x)
        if k in ("Variable",):
            return ("var", S(self.single(st, field(v, "0"))))
        if k == "ByteString":
            return ("str", S(self.single(st, field(v, "0"))))
        if k == "TypeInformationFunction":
            return ("info", D(self.single(st, field(v, "0"))))
        if k == "StringConcatenation":
            return ("concat", tuple(map(D, L(self.single(st, field(v, "0"))))))
        fs = self.open(st, field(v, "0"))
        if k == "Let":
            return ("let", S(fs["name"]), T(fs["type_"]), D(fs["bound_expression"]), D(fs["expression"]))
        if k == "LetRecursive":
            return ("letrec", self.undefinition(st, fs["definition"]), D(fs["expression"]))
        if k == "Call":
            return ("call", self.unfunction(st, fs["type_"]), D(fs["function"]), tuple(map(D, L(fs["arguments"]))))
        if k == "If":
            return ("if", D(fs["condition"]), D(fs["then"]), D(fs["else_"]))
        if k == "Case":
            alternatives = tuple((lambda g: (tuple(map(T, L(g["types"]))), S(g["name"]), D(g["expression"])))(self.open(st, a)) for a in L(fs["alternatives"]))
            d = functional.val(self.I, st, fs["default_alternative"])
            if d[3] == "None":
                default = None
            else:
                g = self.open(st, field(d, "0"))
                default = (S(g["name"]), D(g["expression"]))
            return ("case", D(fs["argument"]), alternatives, default)
        if k == "Record":
            return ("record", self.unrecord(st, fs["type_"]), tuple(map(D, L(fs["fields"]))))
        if k == "RecordField":
            return ("field", self.unrecord(st, fs["type_"]), self.number(st, fs["index"]), D(fs["record"]))
        if k == "RecordUpdate":
            return ("update", self.unrecord(st, fs["type_"]), D(fs["record"]), tuple((lambda g: (self.number(st, g["index"]), D(g["expression"])))(self.open(st, x)) for x in L(fs["fields"])))
        if k == "TryOperation":
            return ("try", D(fs["operand"]), S(fs["name"]), T(fs["type_"]), D(fs["then"]))
        if k == "Variant":
            return ("variant", T(fs["type_"]), D(fs["payload"]))
        if k == "Synchronize":
            return ("sync", T(fs["type_"]), D(fs["expression"]))
        if k in ("ArithmeticOperation", "ComparisonOperation"):
            return ("arith" if k[0] == "A" else "cmp", functional.val(self.I, st, fs["operator"])[3], D(fs["lhs"]), D(fs["rhs"]))
        if k in ("CloneVariables", "DropVariables"):
            vs = {S(field(x, "0")): T(field(x, "1")) for x in (functional.val(self.I, st, y) for y in L(fs["variables"]))}
            return ("clone" if k[0] == "C" else "drop", tuple(sorted(vs.items(), key=repr)), D(fs["expression"]))
        raise Stuck(k)

    def single(self, st, v):
        """The only field of a structure, however deep."""
        v = functional.unbox(functional.val(self.I, st, v))
        while v[0] == "rec" and v[1] is None and len(v[4]) == 1 and v[2] not in ("vec", "array", "seq") and v[2] != IR + "expression::Expression":
            v = functional.unbox(functional.val(self.I, st, v[4][0][1]))
        return v

    def unmodule(self, st, v):
        """{name: (D, public)} in order, and the declared names."""
        fs = self.open(st, v)
        out = {}
        for g in self.items(st, fs["function_definitions"]):
            h = self.open(st, g)
            d = self.undefinition(st, h["definition"])
            if d[1] in out:
                raise Stuck(f"two definitions of {d[1]}")
            out[d[1]] = (d, self.number(st, h["public"]) == 1)
        return out


EXTRA = {}


def extra(*names):
    def decorate(f):
        for n in names:
            EXTRA[n] = f
        return f
    return decorate


def names(*methods):
    return [m.replace("Rc<", base + "<").replace("Rc::", base + "::") for m in methods for base in ("alloc::rc::Rc", "alloc::rcs::rc::Rc", "alloc::sync::Arc", "alloc::rcs::sync::Arc", "alloc::rcs::arc::Arc")]


@extra("core::convert::identity", *names("Rc::new", "Rc::<T>::new", "<Rc<T> as core::convert::From<T>>::from", "<Rc<T, A> as core::ops::deref::Deref>::deref", "<Rc<T> as core::ops::deref::Deref>::deref"))
def _(I, st, frame, f, args, t, stack):
    return functional.ret(st, args[0])


@extra("core::convert::Into::into", "core::convert::From::from", "<T as core::convert::Into<U>>::into")
def _(I, st, frame, f, args, t, stack):
    v = functional.deep(I, st, args[0], 0)
    if v[0] in ("str", "text"):
        return functional.ret(st, v)
    targs = f[3]
    if v[0] == "rec" and len(targs) >= 2 and v[2] == targs[1]:
        return functional.ret(st, args[0])
    if len(targs) >= 2 and targs[1].startswith("core::cell::RefCell<"):
        return functional.ret(st, rec("cell", None, [("value", args[0])]))
    return grammar.NOM["core::convert::Into::into"](I, st, frame, f, args, t, stack)


@extra("<core::cell::Ref<'_, T> as core::ops::deref::Deref>::deref", "<core::cell::RefMut<'_, T> as core::ops::deref::Deref>::deref", "<core::cell::RefMut<'_, T> as core::ops::deref::DerefMut>::deref_mut")
def _(I, st, frame, f, args, t, stack):
    v = I.load(st, args[0][1]) if args[0][0] == "ref" else args[0]
    return functional.ret(st, v if v[0] == "ref" else args[0])
