"""Reference counting of shared blocks: abstract interpretation of every operation over the classes of the count."""
from absint import *
import facts

MIN, MAX = -(1 << 63), (1 << 63) - 1
ATOMIC = "core::sync::atomic::Atomic::"
ACQUIRE, RELEASE = ("Acquire", "AcqRel", "SeqCst"), ("Release", "AcqRel", "SeqCst")
CLASSES = ["null", "static", "unique", "shared", "synchronized"]


def ordering(v):
    return v[3] if v[0] == "rec" else "?"


class Domain:
    """The count cell of one block; `pointer` is the payload pointer the handle holds."""

    def __init__(self, cls, pointer):
        self.cls, self.pointer = cls, pointer
        self.models = {"core::ptr::const_ptr::<impl *const T>::is_null": self.is_null, "core::ptr::mut_ptr::<impl *mut T>::is_null": self.is_null}
        for n in ("load", "store", "swap", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "fetch_max", "fetch_min",
                  "compare_exchange", "compare_exchange_weak", "fetch_update", "fetch_nand"):
            self.models[ATOMIC + n] = self.atomic(n)
        self.models["core::sync::atomic::fence"] = self.fence
        self.models["alloc::alloc::dealloc"] = self.dealloc
        self.models["core::ptr::drop_in_place"] = self.drop_in_place

    def start(self, st):
        if self.cls == "unique":
            st.data["count"] = integer(0)
        elif self.cls == "static":
            st.data["count"] = integer(MIN)
        elif self.cls == "shared":
            st.data["count"] = ("sym", "count", 0)
            st.facts[("sym", "count", 0)] = ((1, MAX - 1), frozenset())
        st.data["log"] = ()

    def log(self, st, *entry):
        st.data["log"] = st.data["log"] + (entry,)

    def is_null(self, I, st, frame, f, args, t, stack):
        v = args[0]
        if I.address(v) == (self.pointer, 0):
            return [(st, "return", integer(int(self.cls == "null"), "bool"))]
        return is_null(I, st, frame, f, args, t, stack)

    def at_count(self, I, v):
        return I.address(v) == (self.pointer, -8)

    def fence(self, I, st, frame, f, args, t, stack):
        self.log(st, "fence", ordering(args[0]), t["ln"])
        return [(st, "return", UNIT)]

    def dealloc(self, I, st, frame, f, args, t, stack):
        self.log(st, "free", I.address(args[0]) == (self.pointer, -8), t["ln"])
        return [(st, "return", UNIT)]

    def drop_in_place(self, I, st, frame, f, args, t, stack):
        self.log(st, "destroy", I.address(args[0]) == (self.pointer, 0), f[3][0] if f[3] else "?", t["ln"])
        return [(st, "return", UNIT)]

    def atomic(self, n):
        def m(I, st, frame, f, args, t, stack):
            if not self.at_count(I, args[0]):
                if self.cls == "null" and I.address(args[0])[0][0] == "pure":
                    self.log(st, "wild", t["ln"])
                return None
            orders = [ordering(a) for a in args[1:] if a[0] == "rec" and a[2] == "core::sync::atomic::Ordering"]
            if self.cls == "synchronized":
                old = st.new("count")
                st.facts[old] = ((MIN + 1, -1), frozenset())
            elif self.cls == "null":
                self.log(st, "wild", t["ln"])
                return [(st, "return", st.new("wild"))]
            else:
                old = st.data["count"]
            if n == "load":
                self.log(st, "load", old, orders, t["ln"])
                return [(st, "return", old)]
            if n == "store":
                self.log(st, "store", old, args[1], orders, t["ln"])
                st.data["count"] = args[1]
                return [(st, "return", UNIT)]
            if n in ("fetch_add", "fetch_sub", "swap"):
                new = args[1] if n == "swap" else I.binary(st, "Add" if n == "fetch_add" else "Sub", old, args[1])
                self.log(st, "rmw", old, new, orders, t["ln"])
                st.data["count"] = new
                return [(st, "return", old)]
            if n.startswith("compare_exchange"):
                out = []
                s = st.copy()
                if I.refine(s, old, *I.interval(s, args[1])) and I.decide(s, ("op", "Eq", old, args[1])) is not False:
                    self.log(s, "rmw", args[1], args[2], orders, t["ln"])
                    s.data["count"] = args[2]
                    out.append((s, "return", rec("core::result::Result", "Ok", [("0", args[1])])))
                if I.decide(st, ("op", "Eq", old, args[1])) is not True or n.endswith("weak"):
                    self.log(st, "load", old, orders[1:], t["ln"])
                    out.append((st, "return", rec("core::result::Result", "Err", [("0", old)])))
                return out
            self.log(st, "rmw", old, st.new("unknown"), orders, t["ln"])
            return [(st, "return", old)]
        return m


def delta(old, new):
    (a, x), (b, y) = linear(old), linear(new)
    return y - x if a == b else None


def run_operation(check, crate, path, cls, pointer_path, by_value=False, targs=()):
    """Traces of one public operation on a handle whose payload pointer lies at pointer_path behind the receiver."""
    body = crate.body(path)
    pointer = ("sym", "payload", 0)
    d = Domain(cls, pointer)
    I = Interp([crate], models=d.models)
    st = State()
    d.start(st)
    value = pointer
    for n, adt in reversed(pointer_path):
        value = ("rec", None, adt, None, ((n, value), ("phantom", UNIT)) if n == "block" and adt.endswith("Arc") else ((n, value),))
    if by_value:
        arg = value
    else:
        st.mem[("H", "handle")] = value
        arg = ("ref", (("H", "handle"), ()))
    traces = I.run(body, [arg], st, (path,))
    check.analysed(I.analysed)
    check.ok("traces", len(traces))
    return I, d, [x for x in traces if x[1] in ("return",)], body


def frees(log):
    return [e for e in log if e[0] == "free"]


def judge_clone(check, name, I, d, st, value, body):
    where = f"{body['file']}:{body['line']}"
    log = st.data["log"]
    cls = d.cls
    key = f"{name}:clone:{cls}"
    pointers = [t for t in subterms(value) if t == d.pointer] if value else []
    check.require(pointers, "clone shares the block", f"{key}:pointer", f"a clone does not refer to the block it was cloned from ({cls})", where)
    judge_count(check, key, where, I, d, st, +1, "clone")
    check.require(not frees(log) and not [e for e in log if e[0] == "destroy"], "clone frees nothing", f"{key}:free", f"clone frees the block ({cls})", where)


def judge_count(check, key, where, I, d, st, change, what):
    """The number of references changes by exactly `change` (0: not at all)."""
    log, cls = st.data["log"], d.cls
    writes = [e for e in log if e[0] in ("store", "rmw")]
    if cls in ("null", "static"):
        check.require(not writes and not [e for e in log if e[0] == "wild"], f"{cls} counts are untouched", f"{key}:write",
                      f"{what} writes the count of a {cls} block", where)
        return
    if cls in ("unique", "shared"):
        initial = integer(0) if cls == "unique" else ("sym", "count", 0)
        got = delta(initial, st.data["count"])
        check.require(got == change, "local count changes by one", f"{key}:delta",
                      f"{what} of a block with a {cls} thread-local count changes the count by {got}, not {change}", where)
        return
    # Synchronized counts run downwards from -1.
    check.require(not [e for e in writes if e[0] == "store"], "shared counts change atomically", f"{key}:store",
                  f"{what} overwrites a count other threads share instead of updating it atomically", where)
    total = 0
    for e in writes:
        x = delta(e[1], e[2]) if e[0] == "rmw" else None
        total = None if x is None or total is None else total + x
    if e_ok(writes):
        check.require(total == -change, "synchronized count changes by one", f"{key}:delta",
                      f"{what} of a block shared between threads changes its count by {total}, not {-change}", where)


def e_ok(writes):
    return all(e[0] == "rmw" for e in writes)


def judge_drop(check, name, I, d, st, value, body, payload):
    where = f"{body['file']}:{body['line']}"
    log, cls = st.data["log"], d.cls
    key = f"{name}:drop:{cls}"
    freed, destroyed = frees(log), [e for e in log if e[0] == "destroy"]
    if cls in ("null", "static"):
        judge_count(check, key, where, I, d, st, 0, "drop")
        check.require(not freed and not destroyed, f"{cls} blocks are never freed", f"{key}:free", f"drop frees a {cls} block", where)
        return
    if cls == "shared":
        judge_count(check, key, where, I, d, st, -1, "drop")
        check.require(not freed and not destroyed, "blocks with other owners are kept", f"{key}:free", "drop frees a block another handle still refers to", where)
    if cls == "unique":
        check.require(freed and destroyed, "the last owner frees", f"{key}:leak", "drop of the last handle does not destroy and free the block", where)
    if cls == "synchronized":
        rmws = [(i, e) for i, e in enumerate(log) if e[0] == "rmw"]
        judge_count(check, key, where, I, d, st, -1, "drop")
        if rmws:
            i, last = rmws[-1]
            lo, hi = I.interval(st, last[1])
            excluded = I.excluded(st, last[1])
            if freed or destroyed:
                check.require(lo == hi == -1, "the decision to free uses the atomic decrement's own result", f"{key}:early",
                              f"drop frees a block shared between threads although its decrement may have seen a count of {lo if lo != hi else hi}", where)
                order = last[3][0] if last[3] else "?"
                check.require(order in RELEASE, "decrements release", f"{key}:release", f"the decrement before freeing is {order}, so other threads' writes are not ordered before the free", where)
                j = next((k for k, e in enumerate(log) if k > i and e[0] in ("destroy", "free")), len(log))
                acquired = order in ("AcqRel", "SeqCst") or any(e[0] == "fence" and e[1] in ACQUIRE or e[0] == "load" and e[2] and e[2][0] in ACQUIRE for e in log[i + 1:j])
                check.require(acquired, "freeing acquires", f"{key}:acquire", "no acquire operation orders other threads' uses before the block is destroyed", where)
            else:
                check.require(not (lo <= -1 <= hi and -1 not in excluded), "the last owner frees", f"{key}:leak",
                              "drop keeps a block shared between threads although its decrement may have removed the last reference", where)
                order = last[3][0] if last[3] else "?"
                check.require(order in RELEASE, "decrements release", f"{key}:release", f"the decrement is {order}, so this thread's writes are not ordered before another thread's free", where)
    if freed or destroyed:
        check.require(len(freed) == 1 and freed[0][1], "freed exactly once", f"{key}:free-once", f"the block is freed {len(freed)} times or not at its start", where)
        check.require(len(destroyed) == 1 and destroyed[0][1], "payload destroyed exactly once", f"{key}:destroy-once", f"the payload is destroyed {len(destroyed)} times or in the wrong place", where)
        if destroyed and payload:
            check.require(destroyed[0][2] == payload, "the payload's own destructor runs", f"{key}:destroy-type", f"the payload of type {payload} is destroyed as {destroyed[0][2]}", where)
        kinds = [e[0] for e in log]
        if "free" in kinds:
            after = log[kinds.index("free") + 1:]
            check.require(not [e for e in after if e[0] in ("load", "store", "rmw", "destroy")], "no access after the free", f"{key}:use-after-free", "the block is accessed after it was freed", where)


def judge_synchronize(check, name, I, d, st, value, body):
    where = f"{body['file']}:{body['line']}"
    log, cls = st.data["log"], d.cls
    key = f"{name}:synchronize:{cls}"
    if cls in ("unique", "shared"):
        initial = integer(0) if cls == "unique" else ("sym", "count", 0)
        a, x = linear(st.data["count"])
        want = linear(("op", "Sub", integer(-1), initial))
        check.require((a, x) == want, "marking a block as shared keeps its number of references", f"{key}:count", f"marking a {cls} block as shared between threads changes how many references it counts", where)
    else:
        judge_count(check, key, where, I, d, st, 0, "marking as shared")


def sole_access(check, key, where, log, sole, what):
    check.require(sole, "shared payloads are not handed out for mutation", f"{key}:shared", f"{what} gives mutable access to a payload other threads may hold", where)
    if sole:
        i = log.index(sole[-1])
        ok = (sole[-1][2] and sole[-1][2][0] in ACQUIRE) or any(e[0] == "fence" and e[1] in ACQUIRE for e in log[i + 1:])
        check.require(ok, "exclusive access acquires", f"{key}:acquire", "no acquire operation orders other threads' uses before the exclusive access", where)


def judge_slice(check, name, I, d, st, value, body):
    """Mutable bytes are those of a sole owner, or of a fresh copy."""
    where = f"{body['file']}:{body['line']}"
    log, cls = st.data["log"], d.cls
    key = f"{name}:as_slice_mut:{cls}"
    if value is None or not (value[0] == "call" and value[3] or value[0] == "ref"):
        check.violation(f"{key}:result", "the bytes given for mutation cannot be decided", where)
        return
    pointer = value[3][0] if value[0] == "call" else value
    root = pointer
    while root[0] in ("ptradd", "ptrvar", "cast"):
        root = root[1] if root[0] != "cast" else root[2]
    given = root[0] == "ref" and root[1][0] == ("P", ("sym", "payload", 0)) or root == ("sym", "payload", 0)
    check.ok("mutable bytes are decided")
    if given and cls in ("shared", "static"):
        check.violation(f"{key}:shared", f"as_slice_mut gives mutable access to a {cls} payload", where)
    if given and cls == "synchronized":
        sole_access(check, key, where, log, [e for e in log if e[0] in ("load", "rmw") and I.interval(st, e[1]) == (-1, -1)], "as_slice_mut")


def judge_get_mut(check, name, I, d, st, value, body):
    where = f"{body['file']}:{body['line']}"
    log, cls = st.data["log"], d.cls
    key = f"{name}:get_mut:{cls}"
    judge_count(check, key, where, I, d, st, 0, "get_mut") if cls != "synchronized" else check.require(
        not [e for e in log if e[0] in ("store", "rmw")], "exclusive access leaves counts alone", f"{key}:write", "get_mut writes the count", where)
    if value is None or value[0] != "rec" or value[3] not in ("Some", "None"):
        check.violation(f"{key}:result", "get_mut's result cannot be decided", where)
        return
    given = value[3] == "Some"
    if cls in ("shared", "static"):
        check.require(not given, "shared payloads are not handed out for mutation", f"{key}:shared", f"get_mut gives mutable access to a {cls} payload", where)
    if cls == "unique":
        check.require(given, "sole owners may mutate", f"{key}:refused", "get_mut refuses the sole owner", where)
    if cls == "synchronized":
        loads = [e for e in log if e[0] in ("load", "rmw")]
        sole = [e for e in loads if I.interval(st, e[1]) == (-1, -1)]
        if given:
            sole_access(check, key, where, log, sole, "get_mut")
        else:
            check.require(not loads or not sole, "sole owners may mutate", f"{key}:refused", "get_mut refuses the sole owner of a synchronized block", where)


ARC, BUFFER, BLOCK = "pen_ffi::arc::Arc", "pen_ffi::arc::arc_buffer::ArcBuffer", "pen_ffi::arc::arc_block::ArcBlock"
HANDLES = {
    "Arc": ([("block", ARC), ("pointer", BLOCK)], "<pen_ffi::arc::Arc<T> as core::clone::Clone>::clone", "<pen_ffi::arc::Arc<T> as core::ops::drop::Drop>::drop", "T",
            "pen_ffi::arc::Arc::<T>::synchronize", True, "pen_ffi::arc::Arc::<T>::get_mut"),
    "ArcBuffer": ([("block", BUFFER), ("pointer", BLOCK)], "<pen_ffi::arc::arc_buffer::ArcBuffer as core::clone::Clone>::clone",
                  "<pen_ffi::arc::arc_buffer::ArcBuffer as core::ops::drop::Drop>::drop", None, None, False, None),
}


def operations(check, crate, which):
    for name, (path, clone, drop, payload, synchronize, by_value, get_mut) in HANDLES.items():
        for kind, operation, judge in (("clone", clone, judge_clone), ("drop", drop, None), ("synchronize", synchronize, judge_synchronize), ("get_mut", get_mut, judge_get_mut)):
            if operation is None or kind not in which:
                continue
            body = crate.body(operation)
            if body is None:
                check.violation(f"{name}:{kind}:missing", f"{operation} is gone: handles of shared blocks must be able to {kind}")
                continue
            for cls in CLASSES:
                value = kind == "synchronize" and by_value
                if value:
                    # The receiver is consumed: dropping it afterwards is drop's business.
                    I, d, traces, body = run_synchronize(check, crate, operation, cls, path)
                else:
                    I, d, traces, body = run_operation(check, crate, operation, cls, path)
                check.require(traces, "operations complete", f"{name}:{kind}:{cls}:stuck", f"{kind} never completes on a {cls} block", f"{body['file']}:{body['line']}")
                for st, _, v in traces:
                    if kind == "drop":
                        judge_drop(check, name, I, d, st, v, body, payload)
                    else:
                        judge(check, name, I, d, st, v, body)
                check.ok("operation and count class pairs")


def run_synchronize(check, crate, path, cls, pointer_path):
    body = crate.body(path)
    pointer = ("sym", "payload", 0)
    d = Domain(cls, pointer)
    I = Interp([crate], models=d.models, policy=lambda callee, b, stack: b.get("trait") != "core::ops::drop::Drop")
    st = State()
    d.start(st)
    value = pointer
    for n, adt in reversed(pointer_path):
        value = ("rec", None, adt, None, ((n, value), ("phantom", UNIT)) if n == "block" and adt.endswith("Arc") else ((n, value),))
    traces = I.run(body, [value], st, (path,))
    check.analysed(I.analysed)
    check.ok("traces", len(traces))
    return I, d, [x for x in traces if x[1] == "return"], body


def sizes(check, name, layout, offset, where):
    """The memory of a new block covers its header and payload, for payloads of all layouts tried."""
    from ffiruntime import evaluate, Unknown
    try:
        if name == "ArcBuffer":
            for n in (1, 2, 7, 8, 9, 63, 64, 1000):
                size, align = evaluate(layout, {("sym", "argument", 0): n})
                check.require(size >= offset + 8 + n and align >= 8, "allocation covers the payload", f"{name}:new:size", f"a new buffer of {n} bytes is given only {size} bytes of memory", where)
            return
        for a in (1, 2, 4, 8, 16, 64):
            for s in range(a, 8 * a + 1, a):
                size, align = evaluate(layout, {"T": (s, a)})
                check.require(size >= offset + s and align >= a, "allocation covers the payload", f"{name}:new:size", f"a new block for a payload of {s} bytes is given only {size} bytes of memory", where)
                check.require(offset % a == 0, "payloads are aligned", f"{name}:new:{'alignment' if a <= 8 else 'over-aligned'}", f"a payload aligned to {a} bytes is kept at an address which need not be", where)
    except Unknown:
        check.violation(f"{name}:new:size", "the size of a new block's memory cannot be determined", where)


def creation(check, crate):
    """A new block starts with exactly one reference, in memory laid out for the count and the payload."""
    for name, path in (("Arc", "pen_ffi::arc::Arc::<T>::new"), ("ArcBuffer", "pen_ffi::arc::arc_buffer::ArcBuffer::new")):
        body = crate.body(path)
        if body is None:
            check.violation(f"{name}:new:missing", f"{path} is gone")
            continue
        where = f"{body['file']}:{body['line']}"
        I = Interp([crate])
        traces = I.run(body, [("sym", "argument", 0)], State(), (path,))
        check.analysed(I.analysed)
        for st, kind, v in traces:
            if kind != "return":
                continue
            calls = [e for k, e in st.events if k == "call" and (e["def_"] or "").startswith("alloc::alloc::alloc")]
            block = None
            handle = field(field(v, "block"), "pointer")
            base, off = I.address(handle)
            if base[0] == "call" and (base[2] or "").startswith("alloc::alloc::alloc"):
                block = (base, off)
            if not calls and name == "Arc":
                # Such a payload belongs to no block; nothing but dropping the handle could destroy it.
                I2, d2, dropped, b2 = run_operation(check, crate, HANDLES["Arc"][2], "null", HANDLES["Arc"][0])
                check.require(any(e[0] == "destroy" for s2, _, _ in dropped for e in s2.data["log"]), "payloads without size are destroyed", "Arc:new:zero-sized",
                              "a payload without size is kept in no block, and its destructor never runs", where)
            if not calls:
                check.require(block is None, "no block without memory", f"{name}:new:null", "a handle refers to memory that was not allocated", where)
                continue
            check.require(len(calls) == 1, "one allocation per block", f"{name}:new:alloc", "a new block is allocated more than once", where)
            check.require(block is not None and block[1] == 8, "payload follows the count", f"{name}:new:offset", "a new handle does not point just behind its block's count", where)
            if block is None:
                continue
            stores = [e for k, e in st.events if k == "store" and I.address(("ref", e["place"]))[0] == block[0]]
            counts = [e for e in stores if I.address(("ref", e["place"]))[1] == 0]
            value = counts[-1]["value"] if counts else None
            ok = value is not None and (value == integer(0, "isize") or value[0] == "call" and strip(value[2]) == "core::sync::atomic::Atomic::new" and value[3][0][0] == "int" and value[3][0][1] == 0)
            check.require(ok, "a new block has one reference", f"{name}:new:count", f"a new block's count is not that of a single owner", where)
            layout = calls[0]["args"][0]
            arg = [t for t in subterms(layout) if t[0] == "pure" and t[1].endswith("Layout::new") and t[3] == ("T",) or t == ("sym", "argument", 0)]
            check.require(arg, "allocation covers the payload", f"{name}:new:size", "the allocated size does not depend on the payload's", where)
            sizes(check, name, layout, block[1], where)
            payloads = [e for e in stores if I.address(("ref", e["place"]))[1] == 8]
            check.require(payloads and contains(payloads[-1]["value"], ("sym", "argument", 0)), "a new block holds its payload", f"{name}:new:payload",
                          "a new block's payload is not initialised", where)


def counting(check):
    crate = facts.load("root")["pen_ffi"]
    check.rule("each handle operation, over every class of the count (null, static, thread-local unique/shared, synchronized with arbitrary interference), changes the number of references by exactly its own effect and frees exactly at zero")
    operations(check, crate, ("clone", "drop", "synchronize"))
    creation(check, crate)


def exclusive(check):
    crate = facts.load("root")["pen_ffi"]
    check.rule("mutable access is given exactly when the count shows a single owner, after an acquire operation for synchronized blocks")
    operations(check, crate, ("get_mut",))
    path = "pen_ffi::arc::arc_buffer::ArcBuffer::as_slice_mut"
    body = crate.body(path)
    if body is not None:
        for cls in CLASSES:
            if cls != "null":
                I, d, traces, body = run_operation(check, crate, path, cls, HANDLES["ArcBuffer"][0])
                check.require(traces, "operations complete", f"ArcBuffer:as_slice_mut:{cls}:stuck", f"as_slice_mut never completes on a {cls} block", f"{body['file']}:{body['line']}")
                for st, _, v in traces:
                    judge_slice(check, "ArcBuffer", I, d, st, v, body)
