"""The compiler's passes over the intermediate representation: D01 (ownership) and D02 (meaning)."""
import itertools, multiprocessing, os, random, re, sys, time
import compiler, facts
from compiler import PASSES, Passes, Refused, Stuck
from absint import State, field

DEADLINE = 800
WORDS = {"optimization::string_concatenation": "merging of strings", "alpha_conversion": "renaming", "normalization": "flattening", "environment_inference": "inference of environments",
         "lambda_lifting": "lambda lifting", "reference_count": "reference counting"}


# ---- what terms mean ---------------------------------------------------------------------------------------------------
class Fault(Exception):
    """A rule of ownership or scope which a path breaks."""


class Leave(Exception):
    """A function is left early."""
    def __init__(self, value):
        self.value = value


class More(Exception):
    """A choice is open."""
    def __init__(self, key, options):
        self.key, self.options = key, options


class Cell:
    """A variable: how many references it has, and how many an operation whose operands are not complete yet has taken."""
    __slots__ = ("name", "value", "type", "count", "held")

    def __init__(self, name, value, type):
        self.name, self.value, self.type, self.count, self.held = name, value, type, 1, 0


class Closure:
    def __init__(self, definition, scope, table):
        self.definition, self.scope, self.table, self.done = definition, scope, table, None


NUMBERS = {"Add": lambda a, b: a + b, "Subtract": lambda a, b: a - b, "Multiply": lambda a, b: a * b}


class Machine:
    """Runs a module's function on symbols.  Counted: variables are owned, and every rule of ownership is checked."""
    def __init__(self, module, declared, choices, counted, strict):
        self.definitions, self.declared, self.choices = module, declared, dict(choices)
        self.counted, self.strict = counted, strict
        self.events, self.depth, self.cells = [], 0, []
        self.thunks = {}

    def choose(self, key, options):
        if len(options) == 1:
            return options[0]
        if key not in self.choices:
            raise More(key, options)
        return self.choices[key]

    # ---- functions
    def invoke(self, f, args):
        if isinstance(f, Closure):
            d = f.definition
            if d[6] and f.done is not None:
                return f.done[0]
            captured = f.scope
            own = {d[1]: f}
        elif f[0] == "global":
            d = self.definitions[f[1]][0]
            if d[6] and f[1] in self.thunks:
                return self.thunks[f[1]]
            captured, own = {}, {}
        else:
            shown = tuple(self.observe(a) for a in args)
            self.events.append(("call", f, shown))
            return ("result", len(self.events))
        if len(args) != len(d[3]):
            raise Fault(f"{d[1]} takes {len(d[3])} arguments and gets {len(args)}")
        if self.depth > 4:
            self.events.append(("deep call",))
            return ("result", len(self.events))
        self.depth += 1
        scope, cells = dict(captured) if not self.counted else {}, []
        if self.counted:
            for n, t in d[2]:
                scope[n] = Cell(n, captured[n], t)
                cells.append(scope[n])
        if isinstance(f, Closure):
            scope[d[1]] = Cell(d[1], f, ("fn", tuple(t for _, t in d[3]), d[4]))
            cells.append(scope[d[1]])
        for (n, t), a in zip(d[3], args):
            scope[n] = Cell(n, a, t)
            cells.append(scope[n])
        kept, self.cells = self.cells, cells
        try:
            value = self.value(d[5], scope)
        except Leave as e:
            value = e.value
        if self.counted:
            for c in self.cells:
                if c.count != 0:
                    raise Fault(f"{c.name} is never given back")
        self.cells = kept
        self.depth -= 1
        if d[6]:
            if isinstance(f, Closure):
                f.done = (value,)
            else:
                self.thunks[f[1]] = value
        return value

    def observe(self, v):
        """What can be told of a value: functions are told by what they do."""
        if isinstance(v, Closure) or isinstance(v, tuple) and v and v[0] == "global":
            d = v.definition if isinstance(v, Closure) else self.definitions[v[1]][0]
            if self.depth > 4:
                return ("function",)
            self.events.append(("observed",))
            n = len(self.events)
            r = self.invoke(v, [self.symbol(t, f"observed {n} {i}") for i, (_, t) in enumerate(d[3])])
            return ("function", self.observe(r))
        if isinstance(v, tuple):
            return tuple(self.observe(x) if isinstance(x, (tuple, Closure)) else x for x in v)
        return v

    def symbol(self, t, label):
        return ("symbol", label)

    # ---- variables
    def use(self, name, scope, what="used"):
        c = scope.get(name)
        if c is None:
            if name in self.definitions:
                return ("global", name)
            if name in self.declared:
                return ("declared", name)
            raise Fault(f"{name} is {what} where nothing has that name")
        if self.counted:
            c.count -= 1
            if c.count < 0:
                raise Fault(f"{name} is {what} after it was given away")
        return c.value

    def bind(self, scope, name, value, type):
        c = Cell(name, value, type)
        self.cells.append(c)
        return {**scope, name: c}

    # ---- expressions
    def operands(self, es, scope):
        """Operands in their order; variables among them are given away once all of them are there."""
        out, held = [], []
        for e in es:
            out.append(self.value(e, scope))
            while e[0] in ("clone", "drop"):
                e = e[2]
            if e[0] == "var" and e[1] in scope:
                scope[e[1]].held += 1
                held.append(scope[e[1]])
        for c in held:
            c.held -= 1
        return out

    def value(self, e, scope):
        k = e[0]
        if k == "num":
            return ("number", e[1])
        if k == "bool":
            return ("boolean", e[1])
        if k == "none":
            return ("nothing",)
        if k == "str":
            return ("text", (e[1],)) if e[1] else ("text", ())
        if k == "var":
            return self.use(e[1], scope)
        if k == "let":
            return self.value(e[4], self.bind(scope, e[1], self.value(e[3], scope), e[2]))
        if k == "letrec":
            d = e[1]
            if self.strict:
                captured = {}
                for n, t in d[2]:
                    if n in scope and self.counted and scope[n].type != t:
                        raise Fault(f"{d[1]} keeps {n} as {t}, which is {scope[n].type}")
                    captured[n] = self.use(n, scope, "kept by a function")
                if not self.counted:
                    captured = {n: Cell(n, v, None) for n, v in captured.items()}
            else:
                captured = scope
            return self.value(e[2], self.bind(scope, d[1], Closure(d, captured, None), ("fn", tuple(t for _, t in d[3]), d[4])))
        if k == "call":
            f, *args = self.operands((e[2], *e[3]), scope)
            return self.invoke(f, args)
        if k == "if":
            c = self.value(e[1], scope)
            taken = c[1] if c[0] == "boolean" else self.choose(c, (True, False))
            return self.value(e[2] if taken else e[3], scope)
        if k == "case":
            v = self.value(e[1], scope)
            if v[0] == "variant":
                tag = v[1]
            else:
                tag = self.choose(("type of", v), tuple(t for ts, _, _ in e[2] for t in ts) + (("other",) if e[3] else ()))
            for ts, n, b in e[2]:
                if tag in ts:
                    one = len(ts) == 1
                    return self.value(b, self.bind(scope, n, self.payload(v, tag) if one else v, ts[0] if one else "Variant"))
            if e[3] is None:
                raise Fault("a case has no alternative for its argument")
            return self.value(e[3][1], self.bind(scope, e[3][0], v, "Variant"))
        if k == "record":
            return ("record", e[1], tuple(self.operands(e[2], scope)))
        if k == "field":
            return self.part(self.value(e[3], scope), e[2])
        if k == "update":
            r, *fs = self.operands((e[2], *(x for _, x in e[3])), scope)
            fs = tuple((i, x) for (i, _), x in zip(e[3], fs))
            if r[0] == "record":
                return ("record", r[1], tuple(dict(fs).get(i, x) for i, x in enumerate(r[2])))
            return ("updated", r, tuple(sorted(fs, key=lambda x: x[0])))
        if k == "concat":
            out = []
            for v in self.operands(e[1], scope):
                for p in v[1] if v[0] == "text" else (v,):
                    if isinstance(p, str) and out and isinstance(out[-1], str):
                        out[-1] += p
                    else:
                        out.append(p)
            return ("text", tuple(out)) if len(out) != 1 or isinstance(out[0], str) else out[0]
        if k == "try":
            v = self.value(e[1], scope)
            tag = v[1] if v[0] == "variant" else self.choose(("type of", v), (e[3], "other"))
            if tag == e[3]:
                value = self.value(e[4], self.bind(scope, e[2], self.payload(v, tag), e[3]))
                raise Leave(value)
            return v
        if k == "info":
            return ("information", self.value(e[1], scope))
        if k == "variant":
            return ("variant", e[1], self.value(e[2], scope))
        if k == "sync":
            return ("synchronized", e[1], self.value(e[2], scope))
        if k == "arith":
            a, b = self.operands(e[2:4], scope)
            if a[0] == b[0] == "number" and e[1] in NUMBERS:
                return ("number", NUMBERS[e[1]](a[1], b[1]))
            return ("operation", e[1], a, b)
        if k == "cmp":
            a, b = self.operands(e[2:4], scope)
            return ("operation", e[1], a, b)
        if k in ("clone", "drop"):
            for n, t in e[1] if self.counted else ():
                c = scope.get(n)
                if c is None:
                    raise Fault(f"{n} is {'copied' if k == 'clone' else 'dropped'}, which is no variable here")
                if c.type != t:
                    raise Fault(f"{n} is {'copied' if k == 'clone' else 'dropped'} as {t}, which is {c.type}")
                if k == "clone":
                    if c.count + c.held < 1:
                        raise Fault(f"{n} is copied after it was given away")
                    c.count += 1
                else:
                    c.count -= 1
                    if c.count < 0:
                        raise Fault(f"{n} is dropped after it was given away")
            return self.value(e[2], scope)
        raise Stuck(f"term {k}")

    def payload(self, v, tag):
        return v[2] if v[0] == "variant" else ("payload", tag, v)

    def part(self, v, i):
        if v[0] == "record":
            return v[2][i]
        if v[0] == "updated":
            fs = dict(v[2])
            return fs[i] if i in fs else self.part(v[1], i)
        return ("part", i, v)


def outcomes(module, declared, name, counted, strict, limit=400):
    """{choices: (calls, result)} of a function on symbols."""
    out, open_ = {}, [()]
    while open_:
        choices = open_.pop()
        m = Machine(module, declared, choices, counted, strict)
        d = module[name][0]
        try:
            args = [m.symbol(t, n) for n, t in enumerate(t for _, t in d[3])]
            r = m.observe(m.invoke(("global", name), args))
        except More as e:
            for o in e.options:
                open_.append(choices + ((e.key, o),))
            if len(open_) + len(out) > limit:
                raise Stuck("too many paths")
            continue
        out[frozenset(choices)] = (tuple(m.events), r)
    return out


# ---- programs ------------------------------------------------------------------------------------------------------------
N, S, V, B = "Number", "ByteString", "Variant", "Boolean"
R = ("record", "r")
F1, F0, K = ("fn", (N,), N), ("fn", (), N), ("fn", (S, N), V)
TYPES = {"r": (N, S)}
DECLARED = {"g": F1, "k": K}
NAMES = ("x", "y", "z")


class Programs:
    """Well-typed functions: few names, so that they shadow and are used again."""
    def __init__(self, seed, result):
        self.r, self.result = random.Random(seed), result

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def leaf(self, t, scope):
        vs = [("var", n) for n, u in scope.items() if u == t]
        if vs and self.r.random() < 0.8:
            return self.pick(vs)
        if t == N:
            return ("num", self.r.randrange(3))
        if t == S:
            return ("str", self.pick(["", "a", "b"]))
        if t == B:
            return ("bool", True) if self.r.random() < 0.2 else ("cmp", "Equal", self.leaf(N, scope), self.leaf(N, scope))
        if t == V:
            u = self.pick([N, S, R, "None"])
            return ("variant", u, self.leaf(u, scope))
        if t == R:
            return ("record", R, (self.leaf(N, scope), self.leaf(S, scope)))
        if t == "None":
            return ("none",)
        if t == F1:
            return ("var", "g") if "g" not in scope else self.closure(F1, scope, 0)
        if t == F0:
            return self.closure(F0, scope, 0)
        raise Stuck(f"leaf {t}")

    def closure(self, t, scope, depth):
        h = self.pick(["h", "x", "y"])
        return ("letrec", self.definition(h, t, scope, depth), ("var", h))

    def definition(self, h, t, scope, depth, kept=None):
        arguments = tuple((self.pick(NAMES) + ("" if i == 0 else str(i)), a) for i, a in enumerate(t[1]))
        inner = {**scope, **dict(arguments)}
        if h not in dict(arguments):
            inner.pop(h, None)
            if self.r.random() < 0.5:
                inner[h] = t
        result, self.result = self.result, t[2]
        body = self.term(t[2], inner, depth)
        self.result = result
        return ("def", h, (), arguments, t[2], body, t == F0 and self.r.random() < 0.3)

    def term(self, t, scope, depth):
        if depth <= 0:
            return self.leaf(t, scope)
        T = lambda u, s=scope: self.term(u, s, depth - 1 - (self.r.random() < 0.3))
        forms = ["let", "let", "letrec", "if", "case", "leaf"]
        forms += {N: ["arith", "call", "call", "field", "callf", "thunk", "twice"], S: ["concat", "concat", "sfield"], V: ["variant", "k", "k"] + (["try", "try"] if self.result == V else []),
                  B: ["cmp", "cmp"], R: ["record", "update", "update"], F1: ["closure"], F0: ["closure"]}.get(t, [])
        k = self.pick(forms)
        if k == "leaf":
            return self.leaf(t, scope)
        if k == "let":
            x, u = self.pick(NAMES), self.pick([N, S, V, R, F1])
            return ("let", x, u, T(u), T(t, {**scope, x: u}))
        if k == "letrec":
            h, u = self.pick(["h", "x"]), self.pick([F1, F1, F0])
            return ("letrec", self.definition(h, u, scope, depth - 1), T(t, {**scope, h: u}))
        if k == "if":
            return ("if", T(B), T(t), T(t))
        if k == "case":
            x, shape = self.pick(NAMES), self.r.randrange(4)
            one = lambda u: ((u,), x, T(t, {**scope, x: u}))
            if shape == 0:
                return ("case", T(V), (one(N),), (x, T(t, {**scope, x: V})))
            if shape == 1:
                return ("case", T(V), (one(N), one(S)), (self.pick(NAMES), self.leaf(t, {n: u for n, u in scope.items() if n not in NAMES})))
            if shape == 2:
                return ("case", T(V), (((N, S), x, T(t, {**scope, x: V})), one(R), one("None")), None if self.r.random() < 0.3 else ("other", T(t, {**scope, "other": V})))
            return ("case", T(V), (), (x, T(t, {**scope, x: V})))
        if k == "arith":
            return ("arith", self.pick(["Add", "Subtract", "Multiply", "Divide"]), T(N), T(N))
        if k == "cmp":
            return ("cmp", self.pick(["Equal", "LessThan", "LessThanOrEqual"]), T(N), T(N))
        if k == "call":
            return ("call", F1, ("var", "g") if "g" not in scope else T(F1), (T(N),))
        if k == "callf":
            return ("call", F1, T(F1), (T(N),))
        if k == "thunk":
            return ("call", F0, T(F0), ())
        if k == "twice":
            h = self.pick(["h", "x"])
            d = self.definition(h, F0, scope, depth - 1)
            return ("letrec", (*d[:6], self.r.random() < 0.8), ("arith", "Add", ("call", F0, ("var", h), ()), ("call", F0, ("var", h), ())))
        if k == "field":
            return ("field", R, 0, T(R))
        if k == "sfield":
            return ("field", R, 1, T(R))
        if k == "concat":
            return ("concat", tuple(T(S) for _ in range(self.r.randrange(4))))
        if k == "variant":
            u = self.pick([N, S, R])
            return ("variant", u, T(u))
        if k == "k":
            return ("call", K, ("var", "k"), (T(S), T(N)))
        if k == "try":
            e = self.pick(("e",) + NAMES)
            return ("try", T(V), e, S, ("variant", S, self.pick([("var", e), ("concat", (("var", e), ("str", "a")))])))
        if k == "record":
            return ("record", R, (T(N), T(S)))
        if k == "update":
            return ("update", R, T(R), tuple((i, T((N, S)[i])) for i in self.pick([(0,), (1,), (0, 1), (1, 0)])))
        if k == "closure":
            return self.closure(t, scope, depth - 1)
        raise Stuck(k)


def operands():
    """Functions with an operation each, whose operands are each of an expression which calls, binds, branches or returns early."""
    x, v = ("var", "x"), ("var", "v")
    g = lambda a: ("call", F1, ("var", "g"), (a,))
    number = lambda i: ("num", i)
    add = lambda a, b: ("arith", "Add", a, b)
    define = lambda a, t, b, thunk=False: ("def", "h", (), a, t, b, thunk)
    forms = [
        lambda i: x,
        lambda i: g(number(i)),
        lambda i: ("let", "z", N, g(number(i)), ("var", "z")),
        lambda i: ("let", "x", N, g(number(i)), add(("var", "x"), ("var", "x"))),
        lambda i: ("if", ("cmp", "Equal", x, number(i)), g(number(i)), number(i)),
        lambda i: ("case", v, (((N,), "x", g(x)),), ("x", number(i))),
        lambda i: ("case", ("try", ("call", K, ("var", "k"), (("var", "s"), number(i))), "e", S, ("variant", S, ("var", "e"))), (((N,), "n", ("var", "n")),), ("other", x)),
        lambda i: ("letrec", define((("y", N),), N, g(add(("var", "y"), x))), ("call", F1, ("var", "h"), (number(i),))),
        lambda i: ("letrec", define((), N, g(add(number(i), x)), True), add(("call", F0, ("var", "h"), ()), ("call", F0, ("var", "h"), ()))),
    ]
    text = lambda e: ("field", R, 1, ("record", R, (e, ("var", "s"))))
    closure = lambda e: ("let", "z", N, e, ("letrec", define((("y", N),), N, add(("var", "y"), ("var", "z"))), ("var", "h")))
    operations = [
        lambda a, b: ("variant", N, add(a, b)),
        lambda a, b: ("if", ("cmp", "LessThan", a, b), v, ("variant", N, x)),
        lambda a, b: ("call", K, ("var", "k"), (text(a), b)),
        lambda a, b: ("variant", N, ("call", F1, closure(a), (b,))),
        lambda a, b: ("variant", R, ("record", R, (a, text(b)))),
        lambda a, b: ("variant", R, ("update", R, ("record", R, (a, ("var", "s"))), ((0, b),))),
        lambda a, b: ("variant", R, ("update", R, ("var", "r"), ((1, text(a)), (0, b)))),
        lambda a, b: ("variant", S, ("concat", (text(a), ("str", "a"), text(b)))),
        lambda a, b: ("let", "z", N, a, ("variant", N, add(b, ("var", "z")))),
        lambda a, b: ("case", ("variant", N, a), (((N,), "x", ("variant", N, add(b, x))),), ("other", v)),
    ]
    arguments = (("x", N), ("v", V), ("s", S), ("r", R))
    return [{"main": (("def", "main", (), arguments, V, o(a(1), b(2)), False), True)} for o in operations for a in forms for b in forms]


OPERANDS = operands()


def program(seed):
    """{name: (definition, public)} of a family's member."""
    if seed < 0:
        return OPERANDS[-seed - 1]
    r = random.Random(f"program {seed}")
    result = r.choice([N, N, S, V, V, R, F1, B])
    p = Programs(f"terms {seed}", result)
    arguments = tuple({n: t for n, t in ((r.choice(NAMES + ("v", "s", "f", "r")), r.choice([N, S, V, R, F1])) for _ in range(r.randrange(1, 5)))}.items())
    body = p.term(result, dict(arguments), 2 + seed % 3)
    return {"main": (("def", "main", (), arguments, result, body, False), True)}


def size(t):
    return 1 + sum(size(x) for x in t if isinstance(x, tuple)) if isinstance(t, tuple) else 0


def shown(e):
    """A term in short."""
    k = e[0]
    if k in ("num", "bool", "str", "var"):
        return repr(e[1]) if k == "str" else str(e[1])
    if k == "let":
        return f"let {e[1]} = {shown(e[3])} in {shown(e[4])}"
    if k == "letrec":
        return f"let {e[1][1]}({', '.join(n for n, _ in e[1][3])}) = {shown(e[1][5])} in {shown(e[2])}"
    if k == "call":
        return f"{shown(e[2])}({', '.join(map(shown, e[3]))})"
    if k == "if":
        return f"if {shown(e[1])} then {shown(e[2])} else {shown(e[3])}"
    if k == "case":
        rest = [f"{x}: {'|'.join(map(str, ts))} => {shown(b)}" for ts, x, b in e[2]] + ([f"{e[3][0]} => {shown(e[3][1])}"] if e[3] else [])
        return f"case {shown(e[1])} {{ {'; '.join(rest)} }}"
    return f"{k}({', '.join(shown(x) if x and isinstance(x[0], str) else ', '.join(shown(y[-1]) if isinstance(y[0], int) else shown(y) for y in x) for x in e[1:] if isinstance(x, tuple) and x[:1] != ('record',) or x == () and 0)})"


P = None


def judge(task):
    """(task, what was found: None if the program is out of the family, text if undecided)."""
    purpose, seed = task
    program_ = program(seed)
    name = None
    try:
        if size(program_["main"][0]) > 160:
            return task, None
        try:
            meant = outcomes(program_, DECLARED, "main", False, False)
        except (Fault, Stuck):
            return task, None
        text = lambda: f"({', '.join(n for n, _ in program_['main'][0][3])}) => {shown(program_['main'][0][5])}"[:400]
        before = None
        for name, module in P.stages(TYPES, DECLARED, program_):
            last = name == PASSES[-1]
            if purpose == "meaning":
                strict = PASSES.index(name) >= PASSES.index("environment_inference")
                try:
                    now = outcomes(module, DECLARED, "main", False, strict)
                except Fault as e:
                    return task, [(name, f"after {WORDS[name]}, {e}, in {text()}")]
                if now != meant:
                    return task, [(name, f"{WORDS[name]} changes what a function does: {text()}")]
            elif last:
                try:
                    outcomes(module, DECLARED, "main", True, True)
                except Fault as e:
                    return task, [(name, f"after reference counting, {e}, in {text()}")]
        return task, []
    except Refused as e:
        return task, [(e.name, f"{WORDS[e.name]} fails for {text()}")] if purpose == "meaning" else str(e)
    except (Stuck, compiler.Unsupported) as e:
        return task, f"{name}: {e}"
    except Exception as e:
        return task, f"{name}: {type(e).__name__} {e}"


def sweep(check, purpose, n):
    global P
    P = Passes()
    missing = [p for p in PASSES if compiler.entry(p) not in P.I.bodies]
    if missing:
        check.note(f"undecided: no pass {missing}")
        return
    count = skipped = 0
    undecided = {}
    seen = set()
    with multiprocessing.get_context("fork").Pool(8, initializer=sys.setrecursionlimit, initargs=(20000,)) as pool:
        for task, r in pool.imap_unordered(judge, [(purpose, i) for i in range(-len(OPERANDS), n)], 4):
            if isinstance(r, str):
                k = re.sub(r"\d+", "#", r)[:100]
                undecided[k] = undecided.get(k, 0) + 1
            elif r is None:
                skipped += 1
            else:
                count += 1
                check.ok(purpose)
                for name, message in r:
                    if name not in seen:
                        seen.add(name)
                        b = P.I.bodies[compiler.entry(name)]
                        check.violation(f"{purpose}:{name}", message, f"{b['file']}:{b['line']}")
            if len(seen) >= 3 or time.time() - check.start > (400 if check.tier == "quick" else DEADLINE):
                check.note("stopped early")
                pool.terminate()
                break
    check.note(f"{count} programs decided, {skipped} out of the family, {sum(undecided.values())} undecided")
    for k, n in sorted(undecided.items(), key=lambda x: -x[1])[:5]:
        check.note(f"undecided {n} times: {k}")
    judge((purpose, 0))
    check.analysed(b["path"] for b in P.crate.bodies if "mir" in b and b["path"] in P.I.analysed)


def ownership(check):
    """D01."""
    check.rule("On every path of every function of the family, after all passes: a variable is used, copied, dropped and kept by functions only while it has references, it has none when the function is left, and copies and drops are of its type.")
    sweep(check, "ownership", 4000 if check.tier == "thorough" else 700)


def meaning(check):
    """D02."""
    check.rule("For every function of the family and every way of its conditions: after each pass it makes the same calls with the same arguments in the same order and has the same result, every variable is bound where it is used, and no pass fails.")
    sweep(check, "meaning", 4000 if check.tier == "thorough" else 700)
