"""Foreign functions: futures run as suspendable computations, and suspendable computations awaited as futures."""
from absint import *
from sequences import MODELS_SEQ
from anyvalue import where, calls
from ffiruntime import STACK, ASYNC, stack_models, wake_models, type_name
import facts

POLL = "core::task::poll::Poll"
POLLS = 3


def ready(v):
    return rec(POLL, "Ready", [("0", v)])


PENDING = rec(POLL, "Pending", [])


class Bridge(Interp):
    """Runs asynchronous code to completion.  Awaiting is inlined; the compiled program's step functions are played by the rules
    of the suspension protocol: a step either suspends with a new step and continuation, or calls the continuation it was given."""

    def __init__(self, crates, policy=None, models=None, **options):
        own = {
            "core::future::into_future::IntoFuture::into_future": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "core::pin::Pin::new_unchecked": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "core::pin::Pin::new": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "core::pin::Pin::as_mut": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "core::pin::Pin::get_mut": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "alloc::boxed::Box::pin": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "alloc::boxed::Box::new": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "alloc::boxed::Box::into_pin": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "core::future::get_context": lambda I, st, frame, f, a, *r: [(st, "return", a[0])],
            "core::future::poll_fn::poll_fn": lambda I, st, frame, f, a, *r: [(st, "return", rec("pollfn", None, [("f", a[0])]))],
            "core::future::future::Future::poll": poll,
            f"<{POLL}<T> as core::convert::From<T>>::from": lambda I, st, frame, f, a, *r: [(st, "return", ready(a[0]))],
            "core::future::ready::ready": lambda I, st, frame, f, a, *r: [(st, "return", rec("readyfuture", None, [("0", a[0])]))],
        }
        own["pen_ffi::closure::Closure::entry_function"] = lambda I, st, frame, f, a, *r: [(st, "return", ("entry", I.load(st, I.deref(a[0]))))]
        own["<F as core::future::into_future::IntoFuture>::into_future"] = own["core::future::into_future::IntoFuture::into_future"]
        super().__init__(crates, policy=policy, models={**MODELS_SEQ, **stack_models(), **wake_models(), **own, **(models or {})}, unroll=POLLS + 1, **options)
        self.adts.setdefault(POLL, ["Ready", "Pending"])
        self.ffi = next(c for c in crates if c.name == "pen_ffi")

    def operation(self, name):
        return self.ffi.body(f"{ASYNC}::<V>::{name}")

    def is_stack(self, st, v):
        if v[0] != "ref":
            return False
        value = self.load(st, v[1])
        return value[0] == "rec" and value[2] == ASYNC

    def drop(self, st, frame, place, ty, ln, stack):
        # Drops of coroutine bodies are not elaborated yet, so that moved values would seem to be dropped.
        if frame["body"].get("coroutine"):
            self.drop_states = [st]
            return self.drop_states
        return super().drop(st, frame, place, ty, ln, stack)

    def opaque(self, st, frame, f, args, t):
        if args and self.is_stack(st, args[0]) and (f[0] != "fn" or f[1] not in self.bodies and not f[1].startswith(("core::", "alloc::"))):
            return self.step(st, frame, f, args, t)
        return super().opaque(st, frame, f, args, t)

    def step(self, st, frame, f, args, t):
        """One step of the compiled program."""
        st.fresh += 1
        n = len(st.data.get("steps", ()))
        before = self.load(st, args[0][1])
        st.data["steps"] = st.data.get("steps", ()) + (dict(f=f, args=tuple(args), context=field(before, "context"), fn=frame["body"]["path"], ln=t["ln"]),)
        st.data.setdefault("resolve", args[1])
        # A later step first takes back what the suspension stored.
        if n:
            restore = self.operation("restore")
            states = [s for s, k, v in self.run(restore, [args[0]], st, (restore["path"],), ("?", "?")) if k == "return" and v[0] == "rec" and v[3] == "Ok"]
        else:
            states = [st]
        out = []
        for st in states:
            # It may resolve...
            s = st.copy()
            s.data["outcome"] = ("resolved", ("sym", "final", n))
            for s2, k, v in self.apply(s, frame, s.data["resolve"], [args[0], ("sym", "final", n)], dict(t, to=0), ()):
                out.append((s2, k, UNIT if k == "return" else v))
            # ... or suspend.
            s = st.copy()
            s.data["outcome"] = ("suspended", n)
            suspend = self.operation("suspend")
            types = tuple("?" for g in suspend.get("generics", ()))
            for s2, k, v in self.run(suspend, [args[0], ("sym", "step", n), ("sym", "continuation", n), ("sym", "future", n)], s, (suspend["path"],), types):
                if k == "return":
                    if not (v[0] == "rec" and v[3] == "Ok"):
                        fault(s2, "runs a step although its stack is not in a state to suspend")
                    out.append((s2, "return", UNIT))
        return out


def fault(st, text):
    st.data["faults"] = st.data.get("faults", ()) + (text,)


def poll(I, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    place = args[0][1]
    v = I.load(st, place)
    while v[0] == "ref":
        place = v[1]
        v = I.load(st, place)
    if v[0] == "closure":
        body = I.resolve(frame, v)
        if body is None or not body.get("coroutine"):
            return None
        out = []
        if not frame["body"].get("coroutine") and getattr(I, "suspending", False):
            # Whatever the asynchronous function awaits may keep it pending.
            s = st.copy()
            s.data["future"] = ("pending", v)
            s.data["contexts"] = s.data.get("contexts", ()) + (args[1],)
            out.append((s, "return", PENDING))
            st = st.copy()
            st.data["future"] = ("ready", None)
            st.data["contexts"] = st.data.get("contexts", ()) + (args[1],)
        for s, k, r in I.run_closure(st, v, body, [args[1]], stack, frame):
            if k == "return" and s.data.get("future") == ("ready", None):
                s.data["future"] = ("ready", r)
            out.append((s, k, ready(r) if k == "return" else r))
        return out
    if v[0] == "rec" and v[2] == "readyfuture":
        return [(st, "return", ready(field(v, "0")))]
    if v[0] == "rec" and v[2] == "pollfn":
        return poll_closure(I, st, frame, field(v, "f"), t, stack)
    # A future of the outside world.
    st.fresh += 1
    n = len(st.data.get("polled", ()))
    st.data["polled"] = st.data.get("polled", ()) + ((v, args[1]),)
    st.data["contexts"] = st.data.get("contexts", ()) + (args[1],)
    a, b = st.copy(), st.copy()
    a.data["future"], b.data["future"] = ("ready", ("sym", "output", n)), ("pending", n)
    return [(a, "return", ready(("sym", "output", n))), (b, "return", PENDING)]


def poll_closure(I, st, frame, f, t, stack):
    """Polls a poll_fn future until it is ready, at most POLLS times."""
    body = I.resolve(frame, f)
    if body is None:
        return None
    root = ("H", "pollfn", st.fresh)
    st.fresh += 1
    st.mem[root] = rec("closure", None, [(str(i), v) for i, v in enumerate(f[3])])
    done, live = [], [st]
    subst = dict(f[4])
    targs = tuple(subst.get(g, g) for g in body.get("generics", ()))
    for n in range(POLLS):
        next_ = []
        for s in live:
            steps = len(s.data.get("steps", ()))
            s.data["outcome"] = None
            for s2, k, v in I.run(body, [("ref", (root, ())), ("sym", "context", n)], s, stack + (body["path"],), targs):
                if k != "return":
                    if k == "panic":
                        fault(s2, "panics while it is polled")
                        done.append((s2, k, v))
                    else:
                        fault(s2, "never finishes a poll")
                        done.append((s2, "panic", v))
                    continue
                new = s2.data.get("steps", ())[steps:]
                if len(new) != 1:
                    fault(s2, f"takes {len(new)} steps of the computation in one poll")
                for e in new:
                    if not (e["context"][0] == "rec" and e["context"][3] == "Some" and contains(e["context"], ("sym", "context", n))):
                        fault(s2, "takes a step without the context of the current poll")
                outcome = s2.data.get("outcome")
                if v[0] != "rec" or v[2] != POLL:
                    fault(s2, "has an outcome which cannot be determined")
                    done.append((s2, "panic", v))
                    continue
                if v[3] == "Ready":
                    if outcome is None or outcome[0] != "resolved" or field(v, "0") != outcome[1]:
                        fault(s2, "completes with something other than the computation's result")
                    done.append((s2, "return", v))
                else:
                    if outcome is None or outcome[0] != "suspended":
                        fault(s2, "is pending although the computation has finished")
                    for r, w in s2.mem.items():
                        if r == root:
                            for x in subterms(w):
                                if x[0] == "rec" and x[2] == ASYNC and field(x, "context") != NONE:
                                    fault(s2, "keeps the context of a poll that has ended")
                    next_.append(s2)
        live = next_
    I.cut = getattr(I, "cut", 0) + len(live)
    return done


# ---- awaiting the program's computations -----------------------------------------------------------------------------
def crates():
    F = facts.load("ffi")
    return [F["pen_ffi"], F["pen_ffi_fixture"]], F


def runtime_policy(name, body, stack):
    """Follows everything but reference counting, boxed values and byte strings."""
    p = body["path"].lstrip("<")
    return not p.startswith(("pen_ffi::arc", "pen_ffi::closure", "pen_ffi::any", "pen_ffi::string", "pen_ffi::list", STACK, "pen_ffi::type_information")) or "closure#" in p and "cps" in p


def await_(check, cs, path, initial, arguments, result=lambda v: v, targs=()):
    """Everything that can happen when the asynchronous function at the path is awaited."""
    body = next((b for c in cs for b in c.bodies if b["path"] == path), None)
    name = path.split("::")[-1]
    if not check.require(body, "asynchronous functions", f"{path}:missing", f"{path} is gone"):
        return
    I = Bridge(cs, policy=runtime_policy)
    st = State()
    w = where(body)
    made = [x for x in I.run(body, arguments, st, (path,), targs) if x[1] == "return"]
    outcomes = []
    for s, _, v in made:
        s.mem[("H", "root")] = v
        frame = {"crate": body["crate"], "body": body, "id": 0, "subst": {}}
        outcomes += poll(I, s, frame, None, [("ref", (("H", "root"), ())), ("sym", "ctx", 0)], {"ln": body["line"], "to": 0, "a": []}, (path,)) or []
    check.analysed(I.analysed)
    lengths = set()
    for s, kind, v in outcomes:
        for text in dict.fromkeys(s.data.get("faults", ())):
            check.violation(f"{path}:{text}", f"the awaited computation {text}", w)
        if kind != "return":
            check.violation(f"{path}:{kind}", "awaiting a computation does not always complete", w)
            continue
        steps = s.data.get("steps", ())
        lengths.add(len(steps))
        check.ok("awaited computations: completed histories")
        if not check.require(steps, "computations are started", f"{path}:start", "awaiting a computation never starts it", w):
            continue
        check.require(result(field(v, "0")) == ("sym", "final", len(steps) - 1), "results are handed over", f"{path}:result", "awaiting a computation gives something other than its result", w)
        first = steps[0]
        initial(check, s, first, path, w)
        for n, e in enumerate(steps[1:]):
            check.require(e["f"] == ("sym", "step", n), "the stored step is taken", f"{path}:step", "a later poll does not take the step the computation stored", w)
            check.require(len(e["args"]) == 2 and e["args"][1] == ("sym", "continuation", n), "the stored continuation is passed", f"{path}:continuation", "a later poll does not pass on the continuation the computation stored", w)
            check.require(e["args"][0] == first["args"][0], "one stack per computation", f"{path}:stack", "a later poll uses another stack", w)
    check.require(lengths >= set(range(1, POLLS + 1)), "computations may suspend any number of times", f"{path}:suspension", "awaiting a computation does not complete for every number of suspensions", w)
    check.note(f"{path}: {len(outcomes)} histories of up to {POLLS} polls")


def of_closure(closure, arguments):
    def judge(check, st, e, path, w):
        entry = e["f"]
        while entry[0] == "cast":
            entry = entry[2]
        ok = entry == ("entry", closure)
        check.require(ok, "the closure's own entry is called", f"{path}:entry", "the first step is not the awaited closure's entry function", w)
        check.require(tuple(e["args"][2:]) == (closure,) + tuple(arguments), "arguments are passed on", f"{path}:arguments", "the closure is not called with itself and the given arguments in order", w)
    return judge


def of_function(callee, arguments):
    def judge(check, st, e, path, w):
        check.require(callee(e["f"]), "the function itself is called", f"{path}:entry", "the first step is not a call of the awaited function", w)
        check.require(tuple(e["args"][2:]) == tuple(arguments), "arguments are passed on", f"{path}:arguments", "the function is not called with the given arguments in order", w)
    return judge


def awaiting(check):
    cs, F = crates()
    check.rule("each poll takes exactly one step, in the poll's own context: first the function or closure itself with its arguments, later the stored step with the stored continuation")
    check.rule("a poll is ready exactly when the computation has resolved, with the value it resolved to")
    A0, B, C, D = (("sym", n, 0) for n in "abcd")
    await_(check, cs, "pen_ffi::future::from_function::from_function", of_function(lambda f: f == A0, []), [A0], targs=("V",))
    await_(check, cs, "pen_ffi::future::from_closure::from_closure", of_closure(A0, []), [A0], targs=("T", "V"))
    await_(check, cs, "pen_ffi_fixture::use_call", of_closure(A0, [B, C]), [A0, B, C])
    await_(check, cs, "pen_ffi_fixture::use_call_three", of_closure(A0, [B, C, D]), [A0, B, C, D])
    foreign = lambda name: lambda f: f[0] == "fn" and f[1].endswith("::" + name)
    await_(check, cs, "pen_ffi_fixture::use_import", of_function(foreign("imported_future"), [A0, B]), [A0, B])
    await_(check, cs, "pen_ffi_fixture::use_import_three", of_function(foreign("imported_three"), [A0, B, C]), [A0, B, C])
    await_(check, cs, "pen_ffi::future::stream::get_first_rest", of_function(foreign("pen_ffi_list_first_rest"), [A0]), [A0])


# ---- computations of foreign functions ---------------------------------------------------------------------------------
CONT = ("sym", "continuation", 0)


def drive(check, I, st, body, arguments, path, output, targs=()):
    """Calls an exported asynchronous function as compiled code does, and resumes it until it calls its continuation."""
    ffi = I.ffi
    w = where(body)
    place = (("H", "stack"), ())
    stack = ("ref", place)
    new, resume = I.operation("new"), I.operation("resume")
    started = []
    for s, k, v in I.run(new, [("sym", "capacity", 0)], st, (new["path"],), ("()",)):
        if k == "return":
            s.mem[place[0]] = with_field(v, "context", some(("sym", "context", 0)))
            s.events = ()
            started.append(s)
    live = []
    for s in started:
        live += [(0, x) for x in I.run(body, [stack, CONT] + list(arguments), s, (path,), targs)]
    finished = set()
    while live:
        n, (s, kind, v) = live.pop()
        for text in dict.fromkeys(s.data.get("faults", ())):
            check.violation(f"{path}:{text}", f"the exported function {text}", w)
        if kind != "return":
            check.violation(f"{path}:{kind}", "an exported asynchronous function can panic" if kind == "panic" else "an exported asynchronous function does not finish its step", w)
            continue
        contexts = s.data.get("contexts", ())
        check.require(len(contexts) == n + 1 and contains(contexts[-1], ("sym", "context", n)), "futures are polled once per step", f"{path}:poll", "a step does not poll its future exactly once in the current context", w)
        future = s.data.get("future")
        if future is None:
            continue
        if future[0] == "pending" and n + 1 >= POLLS:
            continue
        results = [x for x in I.run(resume, [stack], s, (resume["path"],), ("()", "?")) if x[1] == "return"]
        if not check.require(results and all(x[2][0] == "rec" and x[2][3] == "Ok" for x in results), "steps leave a computation to resume", f"{path}:resume", "after a step of an exported function its computation cannot be resumed", w):
            continue
        for s2, _, v2 in results:
            pair = field(v2, "0")
            step, continue_ = field(pair, "0"), field(pair, "1")
            check.require(continue_ == CONT, "the caller's continuation is kept", f"{path}:continuation", "an exported function does not store its caller's continuation", w)
            b = I.resolve({"crate": body["crate"]}, step)
            if not check.require(b, "stored steps are known", f"{path}:step", "the step stored by an exported function cannot be determined", w):
                continue
            s2.mem[place[0]] = with_field(I.load(s2, place), "context", some(("sym", "context", n + 1)))
            calls_before = len(calls(s2))
            targs2 = step[5] if len(step) > 5 and step[5] else step[3]
            if future[0] == "pending":
                check.ok("exported functions: pending steps")
                live += [(n + 1, x) for x in I.run(b, [stack, continue_], s2, (b["path"],), targs2)]
                continue
            check.require(s2.data.get("woken", 0) >= 1, "finished functions wake the task", f"{path}:wake", "an exported function which finishes does not wake its task", w)
            for s3, k3, v3 in Interp.run(I.plain, b, [stack, continue_], s2, (b["path"],), targs2):
                jumps = [e for e in calls(s3)[calls_before:] if e["f"] == CONT]
                ok = k3 == "return" and len(jumps) == 1 and len(jumps[0]["args"]) == 2
                if check.require(ok, "the continuation is called once", f"{path}:finish", "an exported function does not call its continuation exactly once", w):
                    output(s3, jumps[0]["args"][1], future[1])
                    check.require(not s3.data.get("stack"), "nothing is left on the stack", f"{path}:balance", "an exported function leaves values on its caller's stack", w)
                    finished.add(n)
    check.require(finished >= set(range(POLLS)), "functions may suspend any number of times", f"{path}:suspension", "an exported function does not finish for every number of suspensions", w)
    check.analysed(I.analysed)


def bridge(cs):
    I = Bridge(cs, policy=lambda n, b, s: runtime_policy(n, b, s) and not b["path"].lstrip("<").startswith("pen_ffi::extra"))
    I.suspending = True
    # The last step hands over to the continuation, which is none of the bridge's business.
    I.plain = Interp(cs, policy=I.policy, models={**MODELS_SEQ, **stack_models(), **wake_models()})
    return I


MARKED = {
    # exported function: (marker calls with indices of arguments, kind of result)
    "sync_unit": ([("marker_unit", (0, 1))], "unit"), "sync_value": ([("marker_value", (0, 1))], "value"), "sync_result": ([("marker_result", (0, 1))], "result"),
    "async_unit": ([("marker_unit", (0, 1))], "unit"), "async_value": ([("marker_value", (0, 1))], "value"), "async_result": ([("marker_result", (0, 1))], "result"),
    "sync_three": ([("marker_change", None), ("marker_three", (0, None, 2))], "value"), "sync_three_unit": ([("marker_change", None), ("marker_three_unit", (0, None, 2))], "unit"),
    "async_three": ([("marker_change", None), ("marker_three", (0, None, 2))], "value"), "async_three_unit": ([("marker_change", None), ("marker_three_unit", (0, None, 2))], "unit"),
}


def exporting(check):
    cs, F = crates()
    check.rule("an exported function runs its body exactly once with its arguments in order, and gives the body's result, converted to the type compiled code expects")
    check.rule("an exported asynchronous function polls its future once per step, suspends with its caller's continuation while the future is pending, and hands the result to the continuation exactly once")
    arguments = [("sym", n, 0) for n in "xyz"]
    for name, (marks, kind) in MARKED.items():
        path = f"pen_ffi_fixture::{name}"
        body = next((b for b in F["pen_ffi_fixture"].bodies if b["path"] == path), None)
        if not check.require(body, "exported functions", f"{name}:missing", f"the macro no longer generates a function called {name}"):
            continue
        w = "lib/ffi-macro/src/bindgen.rs"

        def output(s, v, _, name=name, marks=marks, kind=kind):
            made = [e for e in calls(s) if (e["def_"] or "").split("::")[-1].startswith("marker_")]
            ok = [e["def_"].split("::")[-1] for e in made] == [m for m, _ in marks]
            if not check.require(ok, "bodies run once", f"{name}:body", f"an exported function ({name}) does not run its body exactly once", w):
                return
            for e, (m, want) in zip(made, marks):
                if want is None:
                    continue
                for a, i in zip(e["args"], want):
                    good = a == arguments[i] if i is not None else a[0] == "after"
                    check.require(good, "arguments keep their order", f"{name}:arguments", f"an exported function ({name}) passes other arguments to its body", w)
            result = made[-1]["result"]
            if kind == "value":
                good = v == result
            elif kind == "unit":
                good = not contains(v, result) and (v[0] == "rec" and v[2] == "pen_ffi::none::None" or v[0] == "call" and "none" in v[2].lower() and v[2].endswith("::default"))
            else:
                good = v[0] == "call" and v[3] == (result,) and v[2].split("::")[-1] in ("from", "into")
            check.require(good, "results are handed over", f"{name}:result", f"an exported function ({name}) does not give its body's result", w)

        n = body["mir"]["argc"] - (2 if name.startswith("async") else 0)
        I = bridge(cs)
        if name.startswith("async"):
            drive(check, I, State(), body, arguments[:n], path, output)
        else:
            for s, k, v in I.run(body, arguments[:n], State(), (path,)):
                if check.require(k == "return", "exported functions return", f"{name}:{k}", f"an exported function ({name}) panics or loops", w):
                    output(s, v, None)
            check.analysed(I.analysed)
        item = next((f for f in F["pen_ffi_fixture"].items["fns"] if f["key"] == body["key"]), {})
        check.require("extern" in str(item.get("abi", "")) or item.get("abi") in ("C", '"C"'), "exported functions use the C convention", f"{name}:abi", f"an exported function ({name}) does not use the C calling convention", w)
        check.require(item.get("no_mangle"), "exported functions keep their names", f"{name}:symbol", f"an exported function ({name}) is not exported under its own name", w)
    futures(check, cs, F)


def futures(check, cs, F):
    """Futures turned into closures of the language."""
    path = "pen_ffi::future::to_closure::to_closure"
    body = F["pen_ffi"].body(path)
    if not check.require(body, "futures as closures", "to_closure:missing", "futures can no longer be turned into closures", "lib/ffi/src/future/to_closure.rs"):
        return
    w = where(body)
    FUTURE, CLOSURE = ("sym", "future", 0), ("sym", "closure", 0)
    I = bridge(cs)
    entry = None
    for s, k, v in I.run(body, [FUTURE], State(), (path,), ("O", "F")):
        made = [e for e in calls(s) if (e["def_"] or "").startswith("pen_ffi::closure::Closure") and e["def_"].endswith("::new")]
        if check.require(k == "return" and len(made) == 1 and contains(v, made[0]["result"]), "futures become closures", "to_closure:new", "turning a future into a closure does not make exactly one closure", w):
            entry = made[0]["args"][0]
            while entry[0] == "cast":
                entry = entry[2]
            check.require(made[0]["args"][1] == some(FUTURE), "closures hold their future", "to_closure:payload", "a future's closure does not hold the future", w)
    function = I.resolve({"crate": F["pen_ffi"]}, entry) if entry else None
    if not check.require(function, "closure entries", "to_closure:entry", "the entry function of a future's closure cannot be determined", w):
        return
    payload = ("P", ("payload", CLOSURE))
    I.models["pen_ffi::closure::Closure::payload"] = lambda I, st, frame, f, a, *r: [(st, "return", ("payload", I.load(st, I.deref(a[0]))))]
    st = State()
    st.mem[payload] = some(FUTURE)

    def output(s, v, result):
        check.require(v == result, "results are handed over", "to_closure:result", "a future's closure gives something other than the future's output", w)
        check.require([p for p, _ in s.data.get("polled", ())] == [FUTURE] * len(s.data.get("polled", ())), "the held future is polled", "to_closure:future", "a future's closure polls something other than its future", w)
        check.require(s.mem.get(payload) == NONE, "futures are taken once", "to_closure:taken", "a future stays in its closure while it is being polled, so that it can be polled or dropped twice", w)

    drive(check, I, st, function, [CLOSURE], function["path"], output, ("O", "F"))
