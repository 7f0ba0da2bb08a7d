"""The continuation-passing runtime at the foreign function border: stacks, suspension, closures and byte strings."""
from absint import *
from sequences import MODELS_SEQ, seq, items
from anyvalue import opaque_blocks, where, calls, drops, last, A
import facts

STACK, ASYNC = "pen_ffi::cps::stack::Stack", "pen_ffi::cps::async_stack::AsyncStack"


# ---- arithmetic over extracted terms ------------------------------------------------------------------------------
class Unknown(Exception):
    pass


def round_up(n, a):
    return (n + a - 1) // a * a


def evaluate(t, env):
    """The value of a size or layout term under env: atoms -> integers, type names -> (size, align)."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "int":
        return t[1]
    if k == "at":
        return evaluate(t[1], env)
    if k == "cast":
        return evaluate(t[2], env)
    if k == "rec" and len(t[4]) == 1:
        return evaluate(t[4][0][1], env)
    if k == "fld" and t[2] == "0":
        v = evaluate(t[1], env)
        return v[0] if isinstance(v, tuple) and len(v) and isinstance(v[0], tuple) else v
    if k == "op":
        a, b = evaluate(t[2], env), evaluate(t[3], env)
        o = t[1].replace("Unchecked", "")
        if o in ("Div", "Rem") and b == 0:
            raise Unknown(t)
        return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b, "Rem": lambda: a % b, "Shl": lambda: a << b,
                "Shr": lambda: a >> b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b}.get(o, lambda: (_ for _ in ()).throw(Unknown(t)))()
    if k == "un" and t[1] == "Not":
        return ~evaluate(t[2], env)
    if k == "pure":
        n, a = t[1].split("::")[-1], t[2]
        if n in ("new", "size_of", "align_of"):
            ty = t[3][0]
            layout = env.get(ty) or {"usize": (8, 8), "core::sync::atomic::Atomic<isize>": (8, 8), "core::sync::atomic::Atomic<usize>": (8, 8), "u8": (1, 1), "isize": (8, 8), "u64": (8, 8), "()": (0, 1), "u32": (4, 4), "u16": (2, 2)}.get(ty)
            if layout is None:
                raise Unknown(t)
            return layout if n == "new" else layout[n == "align_of"]
        v = [evaluate(x, env) for x in a]
        if n == "size":
            return v[0][0]
        if n == "align":
            return v[0][1]
        if n == "align_to":
            return (v[0][0], max(v[0][1], v[1]))
        if n == "pad_to_align":
            return (round_up(*v[0]), v[0][1])
        if n == "from_size_align":
            return tuple(v)
        if n == "array":
            s, al = env.get(t[3][0]) or {"u8": (1, 1)}[t[3][0]]
            return (s * v[0], al)
        if n == "extend":
            al = max(v[0][1], v[1][1])
            off = round_up(v[0][0], v[1][1])
            return ((off + v[1][0], al), off)
        if n == "next_multiple_of":
            return round_up(v[0], v[1])
        if n == "div_ceil":
            return -(-v[0] // v[1])
        if n in ("max", "min"):
            return (max if n == "max" else min)(v)
    raise Unknown(t)


def flat(t):
    """Pointer arithmetic as a sum: strips casts and spells out byte offsets."""
    if t[0] == "cast":
        return flat(t[2])
    if t[0] == "ptradd":
        return ("op", "Add", flat(t[1]), integer(t[2]))
    if t[0] == "ptrvar":
        return ("op", "Add", flat(t[1]), t[2])
    if t[0] == "op":
        return ("op", t[1], flat(t[2]), flat(t[3]))
    if t[0] == "ref" and t[1][0][0] == "P" and not t[1][1]:
        return flat(t[1][0][1])
    return t


def equal(a, b):
    return linear(flat(a)) == linear(flat(b))


def known_le(st, x, y):
    """x <= y follows from one comparison on the trace, or from y being a maximum."""
    x, y = flat(x), flat(y)
    if y[0] == "pure" and y[1].endswith("max") and any(known_le(st, x, z) for z in y[2]):
        return True
    (a, k) = linear(("op", "Sub", y, x))
    if not a:
        return k >= 0
    for t, (interval, _) in st.facts.items():
        if t[0] != "op" or t[1] not in ("Gt", "Ge", "Lt", "Le") or interval not in ((0, 0), (1, 1)):
            continue
        op, l, r = t[1], t[2], t[3]
        if interval == (0, 0):
            op = {"Gt": "Le", "Ge": "Lt", "Lt": "Ge", "Le": "Gt"}[op]
        if op in ("Gt", "Ge"):
            l, r, op = r, l, {"Gt": "Lt", "Ge": "Le"}[op]
        (b, j) = linear(("op", "Sub", flat(r), flat(l)))
        # l <= r (or l < r) says 0 <= r - l (- 1); the claim is 0 <= y - x.
        if b == a and k >= j - (1 if op == "Lt" else 0):
            return True
    return False


# ---- stacks ---------------------------------------------------------------------------------------------------------
SIZES_TESTED = [(s, a) for a in (1, 2, 4, 8) for s in range(0, 65) if s % a == 0]


def at_offset(adt, offset):
    return next(f["name"] for f, o in zip(adt["variants"][0]["fields"], adt["offsets"]) if o == offset)


def stack(check):
    F = facts.load("ffi")
    ffi = F["pen_ffi"]
    check.rule("pushed values are written at the top of memory known to be large enough, and popped from where they were pushed")
    check.rule("memory is grown, with its contents, and freed with the layout it was allocated with")
    adt = ffi.adts.get(STACK)
    if not check.require(adt and adt["repr_c"] and adt.get("offsets") == [0, 8, 16], "stack layout", "layout", "a stack is no longer its base pointer, size and capacity", "lib/ffi/src/cps/stack.rs"):
        return
    base, size, capacity = (at_offset(adt, o) for o in (0, 8, 16))

    def run(name, args, targs=(), trait=None):
        body = next((b for b in ffi.bodies if (b.get("trait") == trait and b.get("self_ty") == STACK if trait else b["path"] == f"{STACK}::{name}")), None)
        if not check.require(body, "stack operations", f"{name}:missing", f"stacks can no longer {name}", "lib/ffi/src/cps/stack.rs"):
            return None, []
        log = []

        def allocation(kind):
            def m(I, st, frame, f, a, t, stack):
                st.fresh += 1
                r = ("call", st.fresh, f[1], tuple(a))
                st.data["log"] = st.data.get("log", ()) + ((kind, tuple(a), snapshot(I, st), r),)
                return [(st, "return", r)]
            return m

        def snapshot(I, st):
            v = I.load(st, (("P", ("sym", "stack", 0)), ()))
            return {n: field(v, n) for n in (base, size, capacity)}

        models = {"alloc::alloc::" + n: allocation(n) for n in ("alloc", "realloc", "dealloc", "alloc_zeroed")}
        I = Interp([ffi], models=models)
        traces = I.run(body, args, State(), (body["path"],), targs)
        check.analysed(I.analysed)
        check.ok("traces", len(traces))
        return body, [(st, k, v, snapshot(I, st), I) for st, k, v in traces if k != "panic"]

    S = ("sym", "stack", 0)
    initial = {n: field(("init", ("P", S)), n) for n in (base, size, capacity)}
    align = None
    body, traces = run("new", [A])
    for st, _, v, _, I in traces:
        log = st.data.get("log", ())
        ok = len(log) == 1 and log[0][0].startswith("alloc") and field(v, base) == log[0][3]
        check.require(ok and field(v, size) == integer(0, "usize"), "a new stack is empty", "new:empty", "a new stack is not empty, or does not own fresh memory", where(body))
        if ok:
            for n in (0, 1, 7, 8, 64, 100, 4096):
                try:
                    (allocated, align), c = evaluate(log[0][1][0], {A: n}), evaluate(field(v, capacity), {A: n})
                except Unknown as e:
                    check.violation("new:size", f"the size of a new stack's memory cannot be determined", where(body))
                    break
                check.require(allocated == c and align >= 8, "a new stack knows its capacity", "new:capacity", "a new stack's capacity differs from the memory it allocates", where(body))
                check.require(c >= max(n, 1), "a new stack has memory", "new:zero" if n == 0 else "new:small", f"a stack created with capacity {n} has {c} bytes, and can never grow" if n == 0 else f"a stack created with capacity {n} has {c} bytes", where(body))

    def memory(log, final, where_):
        """Each growth keeps contents, pointer and capacity together."""
        previous = None
        for kind, a, before, r in log:
            if kind == "realloc":
                check.require(equal(a[0], before[base]), "growth keeps contents", "grow:pointer", "growing a stack reallocates something other than its memory", where_)
                try:
                    sizes = [evaluate(a[1], {before[capacity]: n}) for n in (8, 16, 64)]
                    check.require(sizes == [(n, align or 8) for n in (8, 16, 64)], "growth knows the old layout", "grow:layout", "growing a stack passes another layout than its memory was allocated with", where_)
                except Unknown:
                    check.violation("grow:layout", "the layout passed when growing a stack does not follow from its capacity", where_)
                check.require(equal(final[base], r), "growth moves the base", "grow:base", "after growing, a stack keeps using its old memory", where_)
                check.require(equal(final[capacity], a[2]), "growth updates the capacity", "grow:capacity", "after growing, a stack's capacity differs from its memory's size", where_)
                grown = False
                try:
                    atoms = {t for t in subterms(a[2]) if t[0] in ("sym", "fld", "call") and t != before[capacity]} - {before[capacity]}
                    grown = all(evaluate(a[2], {before[capacity]: n, **{t: 8 for t in atoms}, "T": (8, 8), before[size]: n}) > n for n in (8, 16, 64, 1024))
                except Unknown:
                    pass
                check.require(grown, "growth grows", "grow:more", "growing a stack does not give it more memory", where_)
            elif kind.startswith("alloc"):
                check.violation("grow:fresh", "a push allocates fresh memory, abandoning the stack's contents", where_)
            elif kind == "dealloc":
                check.violation("grow:free", "a push frees the stack's memory", where_)

    width = None
    symbolic = len(check.violations)
    body, traces = run("push", [S, A], ("T",))
    exits = 0
    for st, kind, v, final, I in traces:
        log = st.data.get("log", ())
        memory(log, final, where(body))
        if kind == "loop":
            check.require(equal(final[size], initial[size]), "growth keeps the size", "push:loop-size", "growing a stack changes its size", where(body))
            continue
        if kind != "return":
            continue
        exits += 1
        width = difference(final[size], initial[size])
        ok = width is not None
        writes = [e for k, e in st.events if k == "store" and e["value"] == A]
        check.require(ok and widths(width), "entries are aligned and large enough", "push:width", "a pushed entry takes up less than its value's size, or an unaligned amount", where(body))
        if check.require(len(writes) == 1, "pushed values are stored", "push:value", "a pushed value is not written exactly once", where(body)):
            address = I.pointer(("ref", writes[0]["place"]), 0)
            check.require(equal(address, ("op", "Add", final[base], initial[size])), "pushed values go on top", "push:place", "a pushed value is not written at the top of the stack", where(body))
            check.require(known_le(st, final[size], final[capacity]), "pushes stay within the memory", "push:bound", "a value is pushed although the stack's memory is not known to have room for it", where(body))
    check.require(exits, "pushes complete", "push:exit", "pushes never complete", where(body) if body else "")
    if body is not None and {v["key"] for v in check.violations[symbolic:]} <= {"grow:more", "push:bound"} and len(check.violations) > symbolic and grows(check, ffi, body, (base, size, capacity)):
        del check.violations[symbolic:]

    body, traces = run("pop", [S], ("T",))
    for st, kind, v, final, I in traces:
        if kind != "return":
            continue
        w = difference(initial[size], final[size])
        check.require(w is not None and width is not None and same_width(w, width), "pops remove what was pushed", "pop:width", "popping a value does not move the stack's top by as much as pushing it did", where(body))
        ok = v[0] == "init" and v[1][0] == "P" and equal(v[1][1], ("op", "Add", final[base], final[size]))
        check.require(ok, "pops read what was pushed", "pop:place", "a popped value is not read from where it was pushed", where(body))
        check.require(equal(final[base], initial[base]) and equal(final[capacity], initial[capacity]), "pops keep the memory", "pop:memory", "popping a value changes the stack's memory", where(body))

    body, traces = run("drop", [S], trait="core::ops::drop::Drop")
    for st, kind, v, final, I in traces:
        log = st.data.get("log", ())
        ok = len(log) == 1 and log[0][0] == "dealloc" and equal(log[0][1][0], initial[base])
        check.require(ok, "dropped stacks free their memory", "drop:free", "dropping a stack does not free its memory exactly once", where(body))
        if ok:
            try:
                check.require([evaluate(log[0][1][1], {initial[capacity]: n}) for n in (8, 64)] == [(n, align or 8) for n in (8, 64)], "memory is freed with its layout", "drop:layout",
                              "a stack's memory is freed with another layout than it was allocated with", where(body))
            except Unknown:
                check.violation("drop:layout", "the layout a stack's memory is freed with does not follow from its capacity", where(body))


def grows(check, ffi, body, names):
    """Whether pushes stay in their memory, decided by interpreting them on stacks of numbers where loops hide the relation of size and capacity."""
    base, size, capacity = names

    def number(I, st, frame, f, a, t, stack):
        a = [("at", I.load(st, x[1])) if x[0] == "ref" and x[1][0][0] == "L" else x for x in a]
        term = ("pure", strip(f[4] if strip(f[4]) in PURE else f[1]), tuple(a), f[3])
        try:
            v = evaluate(term, {"T": st.data["T"]})
        except (Unknown, TypeError, KeyError):
            return None
        return [(st, "return", integer(v, "usize"))] if isinstance(v, int) else None

    for item in [(s, 8) for s in (0, 8, 16, 24, 56, 64, 72, 200, 1000)] + [(1, 1), (2, 2), (12, 4), (9, 1)]:
        for c in (8, 16, 64, 256):
            for n in sorted({0, 8, c - 16 if c >= 16 else 0, c - 8, c}):
                memory = {"capacity": c, "base": ("sym", "memory", 0), "bad": False}

                def allocation(kind):
                    def m(I, st, frame, f, a, t, stack):
                        st.fresh += 1
                        r = ("call", st.fresh, f[1], tuple(a))
                        now = st.data["memory"]
                        if kind != "realloc" or not equal(a[0], now[0]) or a[2][0] != "int" or evaluate(a[1], {"T": item}) != (now[1], 8) or a[2][1] <= now[1]:
                            raise Unknown(a)
                        st.data["memory"] = (r, a[2][1])
                        return [(st, "return", r)]
                    return m
                I = Interp([ffi], models={**{"alloc::alloc::" + k: allocation(k) for k in ("alloc", "realloc", "dealloc", "alloc_zeroed")},
                                          **{k: number for k in PURE if k.split("::")[-1] in ("size", "align", "size_of", "align_of", "max", "min", "next_multiple_of", "div_ceil")}}, unroll=12)
                st = State()
                st.data.update(T=item, memory=(("sym", "memory", 0), c))
                root = ("P", ("sym", "stack", 0))
                st.mem[root] = rec(STACK, None, [(base, ("sym", "memory", 0)), (size, integer(n, "usize")), (capacity, integer(c, "usize"))])
                try:
                    traces = [x for x in I.run(body, [("sym", "stack", 0), A], st, (body["path"],), ("T",)) if x[1] != "panic"]
                except (Unknown, TypeError):
                    return False
                if len(traces) != 1 or traces[0][1] != "return":
                    return False
                st = traces[0][0]
                v = I.load(st, (root, ()))
                p, room = st.data["memory"]
                writes = [e for k, e in st.events if k == "store" and e["value"] == A]
                if not (equal(field(v, base), p) and field(v, capacity) == integer(room, "usize") and field(v, size)[0] == "int" and len(writes) == 1):
                    return False
                end = field(v, size)[1]
                if end > room or end - n < item[0] or (end - n) % 8 or not equal(I.pointer(("ref", writes[0]["place"]), 0), ("op", "Add", p, integer(n))):
                    return False
                check.ok("pushes interpreted on numbers")
    return True


def difference(a, b):
    """a - b as a term."""
    (x, k) = linear(("op", "Sub", flat(a), flat(b)))
    if k or len(x) != 1 or x[0][0] != 1:
        return ("op", "Sub", flat(a), flat(b)) if x else None
    return x[0][1]


def widths(t):
    try:
        for s, a in SIZES_TESTED:
            n = evaluate(t, {"T": (s, a)})
            if n < s or n % 8:
                return False
        return True
    except (Unknown, TypeError):
        return False


def same_width(a, b):
    try:
        return all(evaluate(a, {"T": x}) == evaluate(b, {"T": x}) for x in SIZES_TESTED)
    except (Unknown, TypeError):
        return False


# ---- suspension -----------------------------------------------------------------------------------------------------
OK_STEPS = {  # state -> operation -> next state; anything else must fail
    "run": {"suspend": "suspended", "trampoline": "bounced"},
    "suspended": {"resume": "restoring"},
    "restoring": {"restore": "run"},
    "bounced": {"resume": "run"},
}


def stack_models():
    def push(I, st, frame, f, args, t, stack):
        st.data["stack"] = st.data.get("stack", ()) + ((f[3][-1] if f[3] else "?", args[1]),)
        return [(st, "return", UNIT)]

    def pop(I, st, frame, f, args, t, stack):
        s = st.data.get("stack", ())
        ty = f[3][-1] if f[3] else "?"
        if not s:
            st.data["faults"] = st.data.get("faults", ()) + ("pops from an empty stack",)
            return [(st, "return", st.new("nothing"))]
        st.data["stack"] = s[:-1]
        if type_name(s[-1][0]) != type_name(ty) and "?" not in s[-1][0] + ty:
            st.data["faults"] = st.data.get("faults", ()) + (f"pops {ty} where {s[-1][0]} was pushed",)
        return [(st, "return", s[-1][1])]

    return {f"{STACK}::push": push, f"{STACK}::pop": pop, f"{STACK}::new": lambda I, st, *r: [(st, "return", ("sym", "inner", 0))]}


def type_name(t):
    """A type for comparison: names of lifetimes and higher-ranked binders do not matter."""
    t = re.sub(r"for<[^>]*> ?", "", t)
    t = re.sub(r"'[a-z_0-9]+ ?", "", t)
    return re.sub(r" \+ Send| \+ Sync", "", t).replace(" ", "")


def wake_models():
    def wake(I, st, frame, f, args, t, stack):
        st.data["woken"] = st.data.get("woken", 0) + 1
        return [(st, "return", UNIT)]
    return {"core::task::wake::Waker::wake_by_ref": wake, "core::task::wake::Waker::wake": wake}


def suspension(check):
    F = facts.load("ffi")
    ffi = F["pen_ffi"]
    check.rule("over every history of suspend, trampoline, resume and restore, exactly the orders of the protocol succeed, and values come back as they were stored, with their own types")
    bodies = {n: ffi.body(f"{ASYNC}::<V>::{n}") for n in ("new", "suspend", "trampoline", "resume", "restore", "resolve", "resolved_value", "run_with_context", "context")}
    for n, b in bodies.items():
        check.require(b, "operations", f"{n}:missing", f"asynchronous stacks can no longer {n}", "lib/ffi/src/cps/async_stack.rs")
    if None in bodies.values():
        return
    models = {**MODELS_SEQ, **stack_models(), **wake_models()}
    policy = lambda name, body, stack: opaque_blocks(name, body, stack) and not body["path"].startswith((STACK, f"<{STACK}"))
    place = (("H", "stack"), ())

    class Protocol(Interp):
        def opaque(self, st, frame, f, args, t):
            # What the program does when its continuation is called is the next operation of the history.
            before = st.mem.get(place[0])
            out = super().opaque(st, frame, f, args, t)
            if f == CONT:
                for s, _, _ in out:
                    s.mem[place[0]] = before
                    s.data["handed"] = (before, s.data.get("stack"))
            return out

    I = Protocol([ffi], policy=policy, models=models, unroll=6)
    self_ = ("ref", place)
    TY, FU = "Value", "Future"
    STEP, CONT, FUT, VAL = (("sym", n, 0) for n in ("step", "continuation", "future", "value"))

    def operate(st, n, args, targs=None):
        b = bodies[n]
        gens = b.get("generics", ())
        subst = {"V": "Final", "T": TY, "F": FU}
        return [x for x in I.run(b, [self_] + args, st, (b["path"],), tuple(subst.get(g, FU) for g in gens)) if x[1] == "return"]

    def fresh(context=True):
        st = State()
        out = I.run(bodies["new"], [A], st, (bodies["new"]["path"],), ("Final",))
        for s, kind, v in out:
            if kind == "return":
                v = with_field(v, "context", some(("sym", "context", 0))) if context else v
                s.mem[place[0]] = v
                return s

    arguments = {"suspend": [STEP, CONT, FUT], "trampoline": [CONT, VAL], "resume": [], "restore": []}

    def key(st):
        v = st.mem[place[0]]
        return (repr([field(v, f["name"]) for f in ffi.adts[ASYNC]["variants"][0]["fields"] if f["name"] not in ("stack",)]), st.data.get("stack", ()))

    start = fresh()
    check.require(field(start.mem[place[0]], "context") is not None, "new stacks", "new", "a new asynchronous stack cannot be analysed", where(bodies["new"]))
    v0 = I.run(bodies["new"], [A], State(), (), ("Final",))
    for s, kind, v in v0:
        if kind == "return":
            check.require(field(v, "context") == NONE, "new stacks have no context", "new:context", "a new asynchronous stack claims to run in a context", where(bodies["new"]))
            check.require(field(v, "resolved_value") == NONE, "new stacks are unresolved", "new:resolved", "a new asynchronous stack is already resolved", where(bodies["new"]))
    # Breadth-first over abstract states: the protocol returns to its first state, so this covers histories of any length.
    work, seen, transitions = [("run", start, ())], {("run", key(start))}, 0
    while work and transitions < 400:
        state, st, history = work.pop(0)
        for n, args in arguments.items():
            transitions += 1
            w = where(bodies[n])
            s0 = st.copy()
            s0.data["woken"] = 0
            s0.data.pop("faults", None)
            before = s0.data.get("stack", ())
            outcomes = operate(s0, n, args)
            allowed = n in OK_STEPS[state]
            label = f"{n} when {state}"
            if len(outcomes) != 1 or outcomes[0][2][0] != "rec" or outcomes[0][2][3] not in ("Ok", "Err"):
                check.violation(f"{n}:{state}:undecided", f"{label}: the outcome cannot be decided", w)
                continue
            s, _, v = outcomes[0]
            check.ok("transitions of the suspension protocol")
            if not allowed:
                check.require(v[3] == "Err", "operations out of order fail", f"{n}:{state}:accepted", f"{label} succeeds, though the protocol does not allow it", w)
                check.require(s.data.get("stack", ()) == before, "operations out of order change nothing", f"{n}:{state}:touched", f"{label} fails but has already moved stored values", w)
                continue
            if not check.require(v[3] == "Ok", "the protocol's operations succeed", f"{n}:{state}:refused", f"{label} fails, though the protocol allows it", w):
                continue
            for fault in s.data.get("faults", ()):
                check.violation(f"{n}:{state}:fault", f"{label} {fault}", w)
            new = OK_STEPS[state][n]
            if n == "suspend":
                check.require(len(s.data.get("stack", ())) == len(before) + 3, "suspension stores the future, step and continuation", f"{n}:stored", "suspending does not store exactly the future, the step and the continuation", w)
            if n == "trampoline":
                check.require(s.data.get("woken", 0) >= 1, "trampolining wakes the task", "trampoline:wake", "trampolining does not wake the task, so that it is never polled again", w)
            if n == "resume":
                pair = field(v, "0")
                got = [field(pair, "0"), field(pair, "1")]
                check.require(got[1] == CONT, "the continuation comes back", f"resume:{state}:continuation", f"{label} does not return the stored continuation", w)
                if state == "suspended":
                    check.require(got[0] == STEP, "the step comes back", "resume:suspended:step", f"{label} does not return the stored step", w)
                else:
                    # A trampoline's own step takes the value from the stack and continues with it.
                    step = got[0]
                    b = I.resolve({"crate": ffi}, step) if step[0] == "fn" else None
                    if check.require(b, "trampolines store a step", "trampoline:step", "the step stored by a trampoline cannot be determined", w):
                        results = [x for x in I.run(b, [self_, CONT], s, (b["path"],), step[5] if len(step) > 5 and step[5] else tuple({"T": TY, "V": "Final"}.get(g, g) for g in b.get("generics", ()))) if x[1] == "return"]
                        check.require(results, "trampolines complete", "trampoline:step:stuck", "the step stored by a trampoline never completes", where(b))
                        for s2, _, _ in results:
                            for fault in s2.data.get("faults", ()):
                                check.violation("trampoline:step:fault", f"the trampoline's step {fault}", where(b))
                            jumps = [e for e in calls(s2) if e["def_"] is None]
                            ok = len(jumps) == 1 and jumps[0]["f"] == CONT and len(jumps[0]["args"]) == 2 and jumps[0]["args"][1] == VAL
                            check.require(ok, "trampolines continue with the value", "trampoline:step:value", "the trampoline's step does not call its continuation exactly once with the stored value", where(b))
                            check.require(s2.data.get("handed") == (s2.mem[place[0]], s2.data.get("stack")), "the continuation has the last word", "trampoline:step:after", "the trampoline's step changes the stack after its continuation has taken over", where(b))
                            s = s2
            if n == "restore":
                check.require(field(v, "0") == FUT, "the future comes back", "restore:future", "restoring does not return the suspended future", w)
            if new == "run":
                check.require(s.data.get("stack", ()) == (), "every stored value is taken back", f"{n}:{state}:balance", f"after {label} the stack does not hold what it held before the suspension", w)
            # The indirect call of the step forgot what the callee may change; continue from the recorded state.
            s = s.copy()
            s.events, s.conds = (), ()
            value = s.mem[place[0]]
            if not check.require(value[0] != "after", "the stack's state is known", f"{n}:{state}:lost", f"{label}: the stack's state cannot be followed", w):
                continue
            k = (new, key(s))
            if k not in seen:
                seen.add(k)
                work.append((new, s, history + (n,)))
    check.require(not work, "the protocol's states are finite", "states", "the histories of the suspension protocol do not close", "lib/ffi/src/cps/async_stack.rs")
    check.require({"run", "suspended", "restoring", "bounced"} <= {k[0] for k in seen}, "all protocol states are reached", "reach", "some states of the suspension protocol are never reached", "lib/ffi/src/cps/async_stack.rs")
    check.analysed(I.analysed)
    check.note(f"{len(seen)} abstract states, {transitions} transitions")

    st = fresh(context=False)
    for s, _, v in operate(st, "trampoline", arguments["trampoline"]):
        check.require(v[0] == "rec" and v[3] == "Err", "trampolines need a context", "trampoline:context", "trampolining outside of a context does not fail", where(bodies["trampoline"]))
    context(check, I, bodies, fresh(context=False), self_, place)
    resolution(check, I, bodies, fresh(), self_, place)


def context(check, I, bodies, st, self_, place):
    body = bodies["run_with_context"]
    w = where(body)
    inner = []

    class Watching(Interp):
        def opaque(self, st, frame, f, args, t):
            st.data["during"] = st.data.get("during", ()) + ((f, tuple(args), self.load(st, (place[0], (("f", "context", ASYNC),)))),)
            return super().opaque(st, frame, f, args, t)

    J = Watching(I.crates, policy=I.policy, models=I.models, unroll=6)
    J.models = I.models
    C, CALLBACK = ("sym", "context", 9), ("sym", "callback", 0)
    for s, kind, v in J.run(body, [self_, C, CALLBACK], st, (body["path"],), ("Final", "Result", "Callback")):
        if kind != "return":
            continue
        during = [d for d in s.data.get("during", ()) if contains(("args", d[0], d[1]), CALLBACK)]
        if check.require(len(during) == 1, "the callback runs once", "context:callback", "running with a context does not call the callback exactly once", w):
            seen = during[0][2]
            check.require(seen[0] == "rec" and seen[3] == "Some" and contains(seen, C), "the callback sees the context", "context:set", "the callback does not see the context it runs with", w)
            check.require(any(a == self_ for t in during[0][1] for a in subterms(t)), "the callback gets the stack", "context:self", "the callback is not given the stack", w)
            result = [e["result"] for e in calls(s) if contains(("args", e["f"], tuple(e["args"])), CALLBACK)]
            check.require(result and v == result[0], "the callback's result is returned", "context:result", "running with a context does not return the callback's result", w)
        after = J.load(s, (place[0], (("f", "context", ASYNC),)))
        check.require(after == NONE, "contexts do not outlive their run", "context:cleared", "a stack keeps its context after the run it belongs to", w)


def resolution(check, I, bodies, st, self_, place):
    V = ("sym", "final", 0)
    b = bodies["resolve"]
    for s, kind, _ in I.run(b, [self_, V], st, (b["path"],), ("Final",)):
        first = bodies["resolved_value"]
        for s1, k1, v1 in I.run(first, [self_], s, (first["path"],), ("Final",)):
            check.require(v1 == some(V), "resolved values are delivered", "resolve:value", "a resolved value is not delivered", where(first))
            for s2, k2, v2 in I.run(first, [self_], s1, (first["path"],), ("Final",)):
                check.require(v2 == NONE, "resolved values are delivered once", "resolve:twice", "a resolved value is delivered twice", where(first))
