"""What compiled programs ask of their runtime: memory, tasks, debugging and the entry point: C04."""
import facts, effects, functional
from absint import *
from bridge import ready
from functional import ret

PACKAGES = ("os/ffi/application", "os-sync/ffi/application", "cmd/test", "test")
P = [("param", i) for i in range(4)]
MODELS_SERVICES = {}


def on(*names):
    def decorate(f):
        for n in names:
            MODELS_SERVICES[n] = f
        return f
    return decorate


def record(st, f, frame, t, op, *args):
    st.fresh += 1
    st.event("service", op=op, args=args, n=st.fresh, ln=t["ln"], task=st.data.get("task", 0))
    return st.fresh


def services(s):
    return [e[1] for e in s.events if e[0] == "service"]


# ---- memory -----------------------------------------------------------------------------------------------------------
@on("core::alloc::layout::Layout::from_size_align", "core::alloc::layout::Layout::from_size_align_unchecked")
def _(I, st, frame, f, args, t, stack):
    v = rec("layout", None, [("size", I.plain(st, args[0])), ("align", I.plain(st, args[1]))])
    return ret(st, v if f[1].endswith("unchecked") else ok(v))


def allocator(name):
    def m(I, st, frame, f, args, t, stack):
        n = record(st, f, frame, t, name, *(I.plain(st, a) for a in args))
        return ret(st, UNIT if name == "dealloc" else ("memory", n))
    return m


for name in ("alloc", "alloc_zeroed", "realloc", "dealloc"):
    on(f"alloc::alloc::{name}", f"std::alloc::{name}")(allocator(name))


# ---- tasks ------------------------------------------------------------------------------------------------------------
def run_future(I, st, frame, v, stack):
    """The outcomes of running a future to its end: (state, kind, value)."""
    v = I.plain(st, v) if v[0] != "closure" else v
    if v[0] == "closure":
        body = I.resolve(frame, v)
        if body is None or not body.get("coroutine"):
            return [(st, "return", ("awaited", v))]
        return I.run_closure(st, v, body, [("sym", "context", 0)], stack, frame)
    if v[0] == "fromclosure":
        n = record(st, None, frame, {"ln": 0}, "run", v[1])
        return [(st, "return", ("output", v[1], n))]
    if v[0] == "join":
        record(st, None, frame, {"ln": 0}, "join", v[1])
        return [(st, "return", ok(v[2]))]
    if v[0] == "mapped":
        out = []
        for s, k, x in run_future(I, st, frame, v[1], stack):
            if k != "return":
                out.append((s, k, x))
                continue
            out += I.apply(s, frame, v[2], [x], {"ln": 0, "to": 0}, stack)
        return out
    if v[0] == "program":
        record(st, None, frame, {"ln": 0}, "finished", v[1])
        return [(st, "return", ("output", "program", v[1]))]
    if v[0] == "yield":
        record(st, None, frame, {"ln": 0}, "yield")
        return [(st, "return", UNIT)]
    if v[0] == "sending":
        record(st, None, frame, {"ln": v[3]}, "send", v[1], v[2])
        out = []
        for i, (k, x) in enumerate((("Ok", ok(UNIT)), ("Err", err(("fld", ("sent", st.fresh), "0"))))):
            s = st.copy()
            s.conds += ((("discr", ("sent", st.fresh)), i, k),)
            out.append((s, "return", x))
        return out
    if v[0] == "receiving":
        record(st, None, frame, {"ln": 0}, "receive", v[1])
        out = []
        for i, (k, x) in enumerate((("None", NONE), ("Some", some(("received", v[1], st.fresh))))):
            s = st.copy()
            s.conds += ((("discr", ("received", v[1], st.fresh)), i, k),)
            out.append((s, "return", x))
        return out
    return None


def poll(I, st, frame, f, args, t, stack):
    v, n = args[0], 0
    while v[0] == "ref" and n < 12:
        v, n = I.load(st, v[1]), n + 1
    w = v if v[0] == "closure" else I.plain(st, v)
    if w[0] in ("closure", "fromclosure", "join", "mapped", "yield", "sending", "receiving", "program"):
        rs = run_future(I, st, frame, w, stack)
        if rs is not None:
            return [(s, k, ready(x) if k == "return" else x) for s, k, x in rs]
    return effects.MODELS_WORLD["core::future::future::Future::poll"](I, st, frame, f, args, t, stack)


on("core::future::future::Future::poll")(poll)


@on("tokio::task::spawn::spawn", "tokio::runtime::handle::Handle::spawn", "tokio::runtime::runtime::Runtime::spawn", "tokio::task::local::spawn_local")
def spawn(I, st, frame, f, args, t, stack):
    n = record(st, f, frame, t, "spawn")
    v = args[-1] if args[-1][0] == "closure" else I.plain(st, args[-1])
    outer = st.data.get("task", 0)
    st.data["task"] = n
    rs = run_future(I, st, frame, v, stack)
    if rs is None:
        rs = [(st, "return", ("awaited", v))]
    out = []
    for s, k, x in rs:
        s.data["task"] = outer
        # A task which panics does not stop the one which spawned it.
        if k == "panic":
            s.event("service", op="abort", args=(), n=n, ln=t["ln"], task=n)
        out.append((s, "return", ("join", n, I.plain(s, x) if k == "return" and x is not None else ("awaited", v))))
    return out


@on("tokio::runtime::runtime::Runtime::block_on", "tokio::runtime::handle::Handle::block_on", "futures_executor::local_pool::block_on", "futures::executor::block_on")
def _(I, st, frame, f, args, t, stack):
    v = args[-1] if args[-1][0] == "closure" else I.plain(st, args[-1])
    rs = run_future(I, st, frame, v, stack)
    return rs if rs is not None else ret(st, ("awaited", v))


@on("tokio::task::yield_now::yield_now")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("yield",))


@on("pen_ffi::future::from_closure::from_closure")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("fromclosure", I.plain(st, args[0])))


@on("pen_ffi::future::to_closure::to_closure")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("thunk", args[0] if args[0][0] == "closure" else I.plain(st, args[0])))


on("futures_util::future::future::FutureExt::map", "futures_util::future::try_future::TryFutureExt::map_ok")(
    lambda I, st, frame, f, args, t, stack: ret(st, ("mapped", args[0] if args[0][0] == "closure" else I.plain(st, args[0]), args[1])))


@on("tokio::sync::mpsc::bounded::channel", "tokio::sync::mpsc::unbounded::unbounded_channel")
def _(I, st, frame, f, args, t, stack):
    n = record(st, f, frame, t, "channel", *(I.plain(st, a) for a in args))
    return ret(st, rec("tuple", None, [("0", ("sender", n)), ("1", ("receiver", n))]))


def ends(kind):
    return "tokio::sync::mpsc::bounded::" + kind, "tokio::sync::mpsc::unbounded::" + ("Unbounded" + kind)


@on(*(e + "::send" for e in ends("Sender")))
def _(I, st, frame, f, args, t, stack):
    v = ("sending", I.plain(st, args[0]), I.plain(st, args[1]), t["ln"])
    return run_future(I, st, frame, v, stack) if "Unbounded" in f[1] else ret(st, v)


@on("tokio::sync::mpsc::bounded::Sender::blocking_send")
def _(I, st, frame, f, args, t, stack):
    return run_future(I, st, frame, ("sending", I.plain(st, args[0]), I.plain(st, args[1]), t["ln"]), stack)


@on("tokio::sync::mpsc::bounded::Sender::try_send")
def _(I, st, frame, f, args, t, stack):
    record(st, f, frame, t, "attempt", I.plain(st, args[0]), I.plain(st, args[1]))
    return ret(st, ("awaited", ("attempt", st.fresh)))


@on(*(e + "::recv" for e in ends("Receiver")))
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("receiving", I.plain(st, args[0])))


# ---- lists ------------------------------------------------------------------------------------------------------------
on("pen_ffi::list::List::new", "<pen_ffi::list::List as core::default::Default>::default")(lambda I, st, frame, f, args, t, stack: ret(st, ("nil",)))
on("pen_ffi::list::List::lazy")(lambda I, st, frame, f, args, t, stack: ret(st, ("lazy", I.plain(st, args[0]))))
on("pen_ffi::list::List::prepend")(lambda I, st, frame, f, args, t, stack: ret(st, ("cons", I.plain(st, args[1]), I.plain(st, args[0]))))


@on("core::mem::forget", "alloc::boxed::Box::leak", "core::mem::manually_drop::ManuallyDrop::new")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    if v[0] == "sender":
        record(st, f, frame, t, "leak", v)
        return ret(st, UNIT if f[1].endswith("forget") else args[0])
    return None


# ---- states for tests -------------------------------------------------------------------------------------------------
CELL = "crossbeam_utils::atomic::atomic_cell::AtomicCell::"


def cell(change):
    def m(I, st, frame, f, args, t, stack):
        old = st.data.get("cell", ("content",))
        new, result = change(old, *(I.plain(st, a) for a in args[1:]))
        st.data["cell"] = new
        return ret(st, result)
    return m


on("pen_ffi::none::None::new", "<pen_ffi::none::None as core::default::Default>::default")(lambda I, st, frame, f, args, t, stack: ret(st, ("none",)))
on(CELL + "new")(lambda I, st, frame, f, args, t, stack: ret(st, ("cell", I.plain(st, args[0]))))
on(CELL + "swap")(cell(lambda old, x: (x, old)))
on(CELL + "store")(cell(lambda old, x: (x, UNIT)))
on(CELL + "load")(cell(lambda old: (old, old)))
on(CELL + "take")(cell(lambda old: (("nothing",), old)))


def stored(name):
    def m(I, st, frame, f, args, t, stack):
        st.data[name] = st.data.get(name, 0) + 1
        return ret(st, UNIT)
    return m


on("core::sync::atomic::AtomicBool::store", "core::sync::atomic::Atomic::store")(stored("flags"))
on("<pen_ffi::any::Any as core::convert::From<T>>::from", "core::convert::Into::into", "<T as core::convert::Into<U>>::into")(
    lambda I, st, frame, f, args, t, stack: ret(st, I.plain(st, args[0])))


class Services(effects.World):
    def __init__(self, crates, own):
        super().__init__(crates, own)
        self.models = {**self.models, **MODELS_SERVICES}
        self.asynchronous = any(f["path"].endswith("::_pen_main") and "Future" in (f.get("output") or "") for c in crates for f in c.items["fns"])
        enters = self.policy
        self.policy = lambda n, b, s: not b["path"].endswith("::_pen_main") and enters(n, b, s)

    def opaque(self, st, frame, f, args, t):
        if f[0] == "fn" and f[1].endswith("::_pen_main"):
            return ret(st, ("program", record(st, f, frame, t, "program"), bool(args)))
        return super().opaque(st, frame, f, args, t)



@on("core::num::nonzero::NonZero::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, some(args[0])) if args[0][0] == "int" and args[0][1] else None


@on("core::num::nonzero::NonZero::get")
def _(I, st, frame, f, args, t, stack):
    return ret(st, args[0])


# ---- obligations ------------------------------------------------------------------------------------------------------
WORD = 8
# Memory which the system's own allocator aligns without being told how: there, it does not need the old layout of what is resized or freed.
NATURAL = 16
LEAST_LIMIT = 1 << 16


class Judge:
    def __init__(self, check, world, package, name, f):
        self.check, self.world, self.package, self.name, self.f = check, world, package, name, f
        self.at = f"{facts.package_dir(package)}/{f['file']}"

    def require(self, good, rule, what, message, ln=None):
        self.check.require(good, rule, f"{what}:{self.package}:{self.name}", f"{self.name} {message}", f"{self.at}:{ln or self.f['line']}")

    def paths(self):
        body = self.world.bodies[self.f["path"]]
        self.check.analysed([self.f["path"]])
        for s, k, v in effects.paths(self.world, self.f, body):
            self.check.ok("paths")
            yield s, k, v

    def undecided(self, why):
        self.check.note(f"{self.name} of {self.package} is not decided: {why}")

    # Whether a path which aborts is taken for sizes which programs use; None if that is not known.
    def limit(self, s):
        size, known = SIZE[self.name], False
        for n in (1, WORD, LEAST_LIMIT // 2, LEAST_LIMIT):
            holds = True
            for c in s.conds:
                t = c[0]
                if t[0] != "op" or t[1] not in COMPARISONS or size not in t[2:] or not any(x[0] == "int" for x in t[2:]):
                    continue
                known = True
                x, y = (n if u == size else u[1] for u in t[2:])
                holds = holds and COMPARISONS[t[1]](x, y) == (c[1] != 0)
            if known and holds:
                return False
        return True if known else None

    def memory(self):
        alignments = set()
        for s, k, v in self.paths():
            used = [e for e in services(s) if e["op"] in ("alloc", "alloc_zeroed", "realloc", "dealloc")]
            if k == "panic":
                large = self.limit(s) if self.name in SIZE else None
                if large is False or large is None and not strange(s):
                    self.require(False, "memory", "panic", "aborts the program" + (" for sizes which programs use" if large is False else ""))
                continue
            if k != "return":
                continue
            # Asking for no memory at all may be answered with anything.
            if any(SIZE.get(self.name) in (c[0], *(c[0][2:] if c[0][0] == "op" and c[0][1] == "Eq" and ("int", 0, "usize") in c[0] else ())) and c[0][0] != "discr" for c in s.conds):
                continue
            want = {"_pen_malloc": ("alloc", "alloc_zeroed"), "_pen_realloc": ("realloc",), "_pen_free": ("dealloc",)}[self.name]
            if not used and any(e[0] == "call" for e in s.events):
                self.undecided("it calls something unknown")
                continue
            self.require(len(used) == 1 and used[0]["op"] in want, "memory", "operation", f"does {', '.join(e['op'] for e in used) or 'nothing'} on a path, where it is to {want[0]} once")
            if len(used) != 1 or used[0]["op"] not in want:
                continue
            e = used[0]
            layout = e["args"][{"alloc": 0, "alloc_zeroed": 0, "realloc": 1, "dealloc": 1}[e["op"]]]
            align = field(layout, "align") if layout[0] == "rec" else ("unknown",)
            if align[0] == "int":
                alignments.add(align[1])
                self.require(align[1] >= WORD and align[1] & (align[1] - 1) == 0, "alignment", "alignment", f"aligns memory to {align[1]} bytes, where values of the language need {WORD}", e["ln"])
            if e["op"] != "alloc" and e["op"] != "alloc_zeroed":
                size = field(layout, "size") if layout[0] == "rec" else ("unknown",)
                self.require(e["args"][0] == P[0] or not concrete(e["args"][0]), "memory", "pointer", "takes another pointer than the one it is given", e["ln"])
                if align[0] == "int" and size[0] == "int":
                    # Nothing but the allocator knows how large it is.
                    self.require(align[1] <= NATURAL, "alignment", "layout", f"gives the allocator a wrong size with an alignment of {align[1]}, from which it looks at the size", e["ln"])
            if e["op"] != "dealloc":
                size = e["args"][2] if e["op"] == "realloc" else field(layout, "size") if layout[0] == "rec" else ("unknown",)
                self.require(enough(size, SIZE[self.name]) or not concrete(size), "memory", "size", "asks for another size than it is asked for", e["ln"])
                self.require(v == ("memory", e["n"]) or not concrete(v), "memory", "result", "returns something other than the memory", e["ln"])
        return alignments

    def spawn(self):
        for s, k, v in self.paths():
            if k != "return":
                if not strange(s):
                    self.require(False, "tasks", "panic", "aborts the program")
                continue
            runs = [e for e in services(s) if e["op"] == "run"]
            if v == P[0]:
                self.require(not runs, "tasks", "twice", "runs a computation and gives it back to be run again")
                continue
            if any(e["args"][0] != P[0] for e in runs):
                self.undecided("it runs another computation")
                continue
            self.require(len(runs) <= 1, "tasks", "twice", "runs a computation more than once")
            spawns = {e["n"] for e in services(s) if e["op"] == "spawn"}
            lazy = v[0] == "thunk"
            if not runs and lazy and not unknown_calls(s):
                self.require(False, "tasks", "lazy", "does not start a computation before its result is asked for")
                continue
            if not runs or unknown_calls(s):
                self.undecided("it calls something unknown")
                continue
            self.require(runs[0]["task"] in spawns and not any(e["op"] == "join" for e in services(s)), "tasks", "waits", "waits for a computation which it is to start only", runs[0]["ln"])
            if not lazy:
                self.undecided("it does not give a closure")
                continue
            # Whoever awaits it.
            frame = {"id": 0, "body": self.world.bodies[self.f["path"]], "crate": self.world.bodies[self.f["path"]]["crate"], "subst": {}}
            rs = run_future(self.world, s.copy(), frame, v[1], (self.f["path"],))
            for s2, k2, x in rs or ():
                x = self.world.plain(s2, x) if x is not None else None
                again = [e for e in services(s2) if e["op"] == "run"]
                self.require(len(again) == 1, "tasks", "twice", "runs a computation again when its result is asked for")
                if k2 == "return" and concrete(x):
                    self.require(x == ("output", P[0], runs[0]["n"]), "tasks", "result", "gives something other than the result of the computation")
                elif k2 == "panic" and not strange(s2):
                    self.require(False, "tasks", "awaiting", "aborts the program when the result is asked for")

    def yield_(self):
        for s, k, v in self.paths():
            ys = [e for e in services(s) if e["op"] == "yield"]
            if k == "return" and not strange(s):
                self.require(len(ys) == 1 or unknown_calls(s), "tasks", "yield", f"gives way {len(ys)} times before it goes on, where it is to do so once")

    def race(self):
        complete = 0
        for s, k, v in self.paths():
            if k != "return":
                if not strange(s):
                    self.require(False, "races", "panic", "aborts the program")
                continue
            es = services(s)
            for e in es:
                if e["op"] == "abort" and not strange(s):
                    self.require(False, "races", "abort", "ends a task by a panic", e["ln"])
            outer = s.data.get("listed", {})
            channels = [e["n"] for e in es if e["op"] == "channel"]
            if unknown_calls(s) or len(channels) != 1 or P[0] not in outer:
                self.undecided("it does something other than sending on one channel")
                continue
            for e in es:
                if e["op"] == "channel" and e["args"] and e["args"][0][0] == "int" and e["args"][0][1] == 0:
                    self.require(False, "races", "capacity", "makes a channel without capacity, which panics", e["ln"])
            if any(e["op"] == "attempt" for e in es):
                self.require(False, "races", "lossy", "drops elements while the channel is full", next(e["ln"] for e in es if e["op"] == "attempt"))
                continue
            # Those who listen no more need not be sent anything.
            gone = [e["n"] for e in es if e["op"] == "send" and any(c[0] == ("discr", ("sent", e["n"])) and (c[2] == "Err" or c[1] == 1) for c in s.conds)]
            sent = [e for e in es if e["op"] == "send"]
            lists = [("element", P[0], i) for i in range(outer[P[0]])]
            for l in lists:
                if l not in outer:
                    if not gone and not strange(s):
                        self.require(False, "races", "list", f"does not look at list {l[2]} of {len(lists)}")
                    continue
                want = [("element", l, i) for i in range(outer[l])]
                got = [e["args"][1] for e in sent if e["args"][1][:2] == ("element", l)]
                if gone:
                    self.require(got == want[:len(got)], "races", "order", "sends elements of a list out of order")
                    continue
                if strange(s):
                    continue
                self.require(got == want, "races", "elements", f"sends the elements {[x[2] for x in got]} of a list which has {[x[2] for x in want]}")
                complete += 1
                tasks = {e["task"] for e in sent if e["args"][1][:2] == ("element", l)}
                others = {e["task"] for e in sent if e["args"][1][:2] != ("element", l)}
                self.require(len(tasks) <= 1, "races", "tasks", "sends elements of one list from several tasks, in any order")
                self.require(not tasks & others, "races", "turns", "sends elements of several lists one list after the other")
            for e in sent:
                if concrete(e["args"][1]) and e["args"][1][:1] != ("element",):
                    self.require(False, "races", "strangers", "sends something which is in no list", e["ln"])
                self.require(e["task"] != 0, "races", "waits", "sends elements before it gives the list", e["ln"])
                self.require(e["args"][0] == ("sender", channels[0]) or e["args"][0][0] != "sender", "races", "channel", "sends elements on another channel", e["ln"])
            for e in es:
                if e["op"] == "leak":
                    self.require(False, "races", "held", "keeps a sender, so that the list it gives never ends", e["ln"])
            self.results(s, v, channels[0], 2)
        if not complete:
            self.undecided("no elements are seen to be sent")

    def results(self, s, v, channel, depth):
        """What is received is the list which is given."""
        frame = {"id": 0, "body": self.world.bodies[self.f["path"]], "crate": self.world.bodies[self.f["path"]]["crate"], "subst": {}}
        v = self.world.plain(s, v)
        if v[0] == "lazy" and v[1][0] == "thunk":
            if mentions_sender(s, self.world, v):
                self.require(False, "races", "held", "keeps a sender in the list it gives, which never ends then")
            before = len(s.events)
            for s2, k, x in run_future(self.world, s.copy(), frame, v[1][1], (self.f["path"],)) or ():
                new = [e[1] for e in s2.events[before:] if e[0] == "service" and e[1]["op"] == "receive"]
                if k != "return" or any(e[0] == "call" for e in s2.events[before:]):
                    if k == "panic" and not strange(s2):
                        self.require(False, "races", "panic", "aborts the program when an element is asked for")
                    continue
                x = self.world.plain(s2, x)
                got = [("received", e["args"][0], e["n"]) for e in new]
                came = [g for g in got if any(c[0] == ("discr", g) and (c[2] == "Some" or c[1] == 1) for c in s2.conds)]
                values = [("fld", g, "0") for g in came] + came
                for g in got:
                    self.require(g[1] == ("receiver", channel) or g[1][0] != "receiver", "races", "channel", "receives elements from another channel")
                firsts, rest = [], x
                while rest[0] == "cons":
                    firsts.append(rest[1])
                    rest = rest[2]
                if not all(concrete(y) for y in firsts) or rest[0] not in ("nil", "lazy"):
                    continue
                ended = len(came) < len(got)
                self.require([y for y in firsts if y in values] == firsts and len(firsts) == len(came), "races", "received", f"gives {len(firsts)} elements where {len(came)} are received")
                if ended:
                    self.require(rest == ("nil",) or rest[0] == "lazy" and firsts, "races", "end", "does not end the list when no elements are left")
                else:
                    self.require(rest[0] == "lazy", "races", "end", "ends the list before every element is received")
                    if rest[0] == "lazy" and depth:
                        self.results(s2, rest, channel, depth - 1)

    def state(self):
        if not any("AtomicCell<" in f["ty"] for c in self.world.crates for a in c.adts.values() for v in a["variants"] for f in v["fields"] if c.name != "pen_ffi"):
            return self.undecided("its state is not in a cell")
        for s, k, v in self.paths():
            if k == "panic" and not strange(s):
                self.require(False, "states", "panic", "aborts the program")
            if k != "return" or strange(s):
                continue
            content = s.data.get("cell", ("content",))
            if self.name.endswith("_get"):
                if concrete(v) or v == ("content",):
                    self.require(v == ("content",), "states", "get", "gives something other than what is in the state")
                if concrete(content):
                    self.require(content == ("content",), "states", "kept", "changes what is in the state")
            elif self.name.endswith("_set"):
                if concrete(content):
                    self.require(content == P[1] or bool(unknown_calls(s)), "states", "set", "leaves something other than what is set in the state")
            elif self.name.endswith("_freeze") and concrete(content):
                self.require(content == ("content",), "states", "kept", "changes what is in the state")

    def debug(self):
        seen = 0
        for s, k, v in self.paths():
            decoded = next((c for c in s.conds if c[0][0] == "discr" and c[0][1][0] == "decode"), None)
            if k == "panic" and not strange(s, ("decode",)):
                self.require(False, "debugging", "panic", "aborts the program" + (" for bytes which are no text" if decoded else ""))
            if k == "return" and not strange(s, ("decode",)):
                printed = [e[1] for e in s.events if e[0] == "effect" and e[1]["op"] in ("stdio._eprint", "stdio._print", "io.write_all", "io.write", "io.write_fmt")]
                self.require(printed or unknown_calls(s), "debugging", "silent", "returns without writing anything")
                seen += 1
        if not seen:
            self.undecided("no path returns")

    def unreachable(self):
        for s, k, v in self.paths():
            self.require(k != "return" or strange(s) or unknown_calls(s), "debugging", "returns", "returns to a program which cannot go on")

    def main(self):
        for s, k, v in self.paths():
            started = [e for e in services(s) if e["op"] == "program"]
            over = {e["args"][0]: e["task"] for e in services(s) if e["op"] == "finished"}
            if k != "return":
                continue
            if not started and unknown_calls(s):
                self.undecided("it calls something unknown")
                continue
            self.require(len(started) == 1, "entry", "main", f"runs the program {len(started)} times")
            # Where the program is asynchronous, it is over only when awaited.
            if self.world.asynchronous:
                for e in started:
                    waited = e["n"] in over and (over[e["n"]] == 0 or any(x["op"] == "join" for x in services(s)))
                    self.require(waited or unknown_calls(s), "entry", "finished", "ends before the program does")


COMPARISONS = {"Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y}
SIZE = {"_pen_malloc": P[0], "_pen_realloc": P[1]}
UNKNOWN = effects.__dict__.get("OPAQUE") or ("call", "after", "sym", "init", "awaited", "unknown", "ref", "closure", "fn", "havoc", "constant", "iter", "next", "alloc", "overflow")
KNOWN_CONDITIONS = ("sent", "received")


def concrete(v):
    if not isinstance(v, tuple) or not v:
        return True
    return v[0] not in UNKNOWN and all(concrete(x) for x in v if isinstance(x, tuple))


def enough(size, asked):
    """At least as much."""
    return size == asked or size[0] == "op" and size[1].startswith("Add") and asked in size[2:] or size[0] == "pure" and size[1] == "max" and asked in size[2]


def strange(s, known=()):
    """Whether a path depends on something which is not known."""
    for c in s.conds:
        t = c[0]
        if t[0] == "discr" and isinstance(t[1], tuple) and t[1] and t[1][0] in KNOWN_CONDITIONS + known:
            continue
        if "is_os_debug" in str(t) or "static" in str(t) or "available_parallelism" in str(t):
            continue
        return True
    return False


HARMLESS = ("fmt", "format", "available_parallelism", "Argument", "print", "is_os_debug", "drop", "is_ok", "is_some", "default", "Default", "var", "LazyLock", "runtime::builder::Builder")


def unknown_calls(s):
    return [e for e in s.events if e[0] == "call" and not any(h in str(e[1]["def_"]) for h in HARMLESS)]


def mentions_sender(s, world, v, n=0):
    if not isinstance(v, tuple) or n > 30:
        return False
    if v and v[0] == "sender":
        return True
    if v and v[0] == "ref":
        try:
            return mentions_sender(s, world, world.load(s, v[1]), n + 1)
        except Exception:
            return False
    return any(mentions_sender(s, world, x, n + 1) for x in v)


JUDGES = {"_pen_malloc": "memory", "_pen_realloc": "memory", "_pen_free": "memory", "_pen_spawn": "spawn", "_pen_yield": "yield_", "_pen_race": "race", "_pen_debug": "debug", "_pen_unreachable": "unreachable",
          **{f"_pen_test_state_{n}": "state" for n in ("new", "get", "set", "freeze")}}


def listed_models():
    inner = effects.MODELS_WORLD["pen_ffi::future::stream::from_list"]

    def m(I, st, frame, f, args, t, stack):
        v = I.plain(st, args[0])
        out = inner(I, st, frame, f, args, t, stack)
        for s, k, x in out:
            s.data["listed"] = {**s.data.get("listed", {}), v: s.data["elements"][1]}
        return out
    return m


on("pen_ffi::future::stream::from_list")(listed_models())


def runtime(check):
    check.rule("memory is allocated, resized and freed by exactly one operation of the allocator, on the given pointer and with the given size, and its alignment is what values need, on paths which log and on those which do not")
    check.rule("a spawned computation is run once, by a task which is started right away, and its output is what awaiting it gives; yielding waits once")
    check.rule("racing sends every element of every list once and in order from a task of its list, and gives what is received, to the end")
    if check.tier == "thorough":
        effects.MAX_ENTRIES = 3
    found = 0
    for package in PACKAGES:
        own = list(facts.load("pkg:" + package).values())
        crates = own + [facts.load("ffi")["pen_ffi"]]
        by_name = {}
        for c in own:
            for f in c.items["fns"]:
                parts = f["path"].split("::")
                name = next((p for p in parts if p in JUDGES), None)
                if name is None and parts[-1] == "main":
                    name = "main"
                if name:
                    by_name.setdefault(name, {})["run" if f["path"].endswith("::run") else parts[-1]] = f
        alignments = {}
        for name, fs in sorted(by_name.items()):
            f = fs.get("run") or fs.get("create_future") or fs.get(name)
            if f is None or name == "main" and not package.startswith("os"):
                continue
            found += 1
            try:
                j = Judge(check, Services(crates, set()), package, name, f)
                r = getattr(j, JUDGES.get(name, name))()
                if r:
                    alignments[name] = r
            except (IndexError, KeyError, TypeError, ValueError, AttributeError, StopIteration) as e:
                check.note(f"{name} of {package} is not decided: {type(e).__name__}: {e}")
        if "_pen_malloc" in alignments and "_pen_realloc" in alignments:
            check.require(alignments["_pen_realloc"] <= alignments["_pen_malloc"] or max(alignments["_pen_realloc"]) <= NATURAL, "alignment", f"alignments:{package}", f"{package} resizes memory with another alignment than it has", package)
    check.require(found > 0, "services", "services", "no services are found")
