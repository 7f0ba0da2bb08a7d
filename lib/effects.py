"""What functions ask of the operating system: operations with their arguments, in order, on every path.

Operations of the system are opaque: each becomes an effect with a number, its arguments as terms over the function's parameters, and a
result nothing is known about; a result which may fail forks the path.  What only wraps values (references, locks, boxes, conversions
between kinds of strings) is transparent.  Buffers keep track of what is read into them.
"""
import re
import functional
from absint import *
from bridge import Bridge, ready, poll as poll_closures
from functional import ret, val, listed, vec

PATHS = [
    # pattern over the declared path -> (resource, operations which may fail, operations which cannot)
    (r"(?:std|tokio)::fs::(?:\w+::)*OpenOptions", "options", "open", ""),
    (r"(?:std|tokio)::fs::(?:\w+::)*File", "file", "open create create_new open_rw open_buffered sync_all sync_data set_len metadata try_clone set_permissions set_modified", "options from_std into_std"),
    (r"(?:std|tokio)::fs::(?:\w+::)*Metadata", "metadata", "modified accessed created", "len is_dir is_file permissions file_type is_symlink"),
    (r"(?:std|tokio)::fs::(?:\w+::)*DirEntry", "entry", "metadata file_type", "file_name path"),
    (r"(?:std|tokio)::fs::(?:\w+::)*", "fs", "copy rename remove_file metadata symlink_metadata read_dir create_dir create_dir_all remove_dir remove_dir_all canonicalize hard_link soft_link symlink read read_to_string write set_permissions exists try_exists read_link", ""),
    (r"std::path::Path", "path", "metadata symlink_metadata read_dir canonicalize read_link try_exists", "exists is_file is_dir"),
    (r"(?:std|tokio)::net::(?:\w+::)*TcpListener", "listener", "bind accept local_addr set_nonblocking set_ttl try_clone take_error from_std", "incoming poll_accept"),
    (r"(?:std|tokio)::net::(?:\w+::)*TcpStream", "stream", "connect connect_timeout shutdown set_nodelay peer_addr local_addr peek try_read try_write set_nonblocking set_ttl set_read_timeout set_write_timeout try_clone take_error readable writable from_std", "split into_split"),
    (r"(?:std|tokio)::net::(?:\w+::)*UdpSocket", "socket", "bind connect recv recv_from send send_to peek peek_from peer_addr local_addr try_recv try_recv_from try_send try_send_to set_broadcast set_nonblocking try_clone recv_buf recv_buf_from readable writable from_std", ""),
    (r"(?:std::io|alloc::io|core::io|tokio::io)::(?:\w+::)*(?:Read|AsyncReadExt|AsyncRead)", "io", "read read_to_end read_to_string read_exact read_vectored read_buf read_u8", "take bytes chain by_ref"),
    (r"(?:std::io|alloc::io|core::io|tokio::io)::(?:\w+::)*(?:Write|AsyncWriteExt|AsyncWrite)", "io", "write write_all write_vectored flush shutdown write_fmt write_buf write_all_buf write_u8", "by_ref"),
    (r"(?:std::io|alloc::io|core::io|tokio::io)::(?:\w+::)*(?:BufRead|AsyncBufReadExt)", "io", "read_line read_until fill_buf skip_until", "lines split consume"),
    (r"(?:std::io|alloc::io|core::io|tokio::io)::(?:\w+::)*(?:Seek|AsyncSeekExt)", "io", "seek rewind stream_position seek_relative", ""),
    (r"(?:std|tokio)::io::(?:\w+::)*", "stdio", "copy", "stdin stdout stderr _print _eprint"),
    (r"std::env", "env", "var set_current_dir current_dir current_exe", "args args_os vars vars_os var_os set_var remove_var"),
    (r"std::process", "process", "", "exit abort id"),
    (r"(?:std|tokio)::process::(?:\w+::)*Command", "command", "output spawn status", ""),
    (r"(?:std|tokio)::process::(?:\w+::)*Child", "child", "wait wait_with_output kill try_wait start_kill", "id"),
    (r"std::thread(?:::\w+)*", "time", "", "sleep sleep_ms yield_now"),
    (r"tokio::time(?:::\w+)*", "time", "", "sleep sleep_until interval"),
    (r"tokio::time(?:::\w+)*", "time", "timeout timeout_at", ""),
    (r"std::time::SystemTime", "clock", "duration_since elapsed", "now"),
    (r"(?:core|std)::time::Instant|std::time::Instant|tokio::time::(?:\w+::)*Instant", "instant", "", "now elapsed duration_since"),
]
SYNCHRONOUS = {"options.append", "stdio.stdin", "stdio.stdout", "stdio.stderr", "metadata.len", "metadata.is_dir", "metadata.is_file", "metadata.permissions", "metadata.file_type", "metadata.is_symlink",
               "metadata.modified", "metadata.accessed", "metadata.created", "entry.file_name", "entry.path", "command.spawn", "listener.local_addr", "stream.peer_addr", "stream.local_addr", "socket.local_addr",
               "socket.peer_addr", "stream.set_nodelay", "stream.try_read", "stream.try_write", "socket.try_recv", "socket.try_recv_from", "socket.try_send", "socket.try_send_to", "socket.set_broadcast", "child.id",
               "io.take", "io.chain", "io.by_ref", "io.lines", "io.split", "io.consume", "file.try_clone.", "instant.now", "instant.elapsed", "instant.duration_since", "file.options", "file.from_std", "child.start_kill",
               "child.try_wait", "time.interval", "stream.split", "stream.into_split", "listener.from_std", "stream.from_std", "socket.from_std", "stream.set_ttl", "listener.set_ttl"}
COMPILED = [(re.compile(p + (r"(\w+)$" if p.endswith("::)*") else r"::(\w+)$")), r, set(f.split()), set(n.split())) for p, r, f, n in PATHS]


def operation(*names):
    """(name, whether it is fallible) of an operation of the system, or None."""
    for n in names:
        if not n:
            continue
        # The path of a method of an implementation of a trait.
        m = re.fullmatch(r"<(.*) as ([\w:]+)(?:<.*>)?>::(\w+)", n)
        for name in ([f"{m.group(2)}::{m.group(3)}", f"{m.group(1).split('<')[0]}::{m.group(3)}"] if m else [strip(n)]):
            for p, resource, fallible, infallible in COMPILED:
                m2 = p.fullmatch(name)
                if m2:
                    op = m2.group(1)
                    if op in fallible or op in infallible:
                        return f"{resource}.{op}", op in fallible
    return None


# What wraps a value, or another kind of the same value.
TRANSPARENT = re.compile(r"""
    .*::(?:deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|clone|to_owned|to_vec|into_vec|into_boxed_slice|as_slice|as_mut_slice|as_bytes|as_str|as_path|as_os_str|to_path_buf|into_boxed_path|
        into|into_bytes|into_string\b.*|as_mut_ptr|by_ref|into_inner_unchecked|get_mut|to_vec_in|leak|into_owned|cloned|copied|into_future|into_os_string|as_encoded_bytes|boxed|get_ref|lock_owned)
  | .*(?:Box|Arc|Rc|Cow|Pin|RwLock|Mutex|RefCell|Cell|Path|PathBuf|OsStr|OsString|OnceLock|Number|Boolean|Closure_|ByteString)(?:::<[^>]*>)?::(?:new|pin|from|as_slice|into_pin|from_slice)
  | <.*\ as\ core::convert::(?:From|Into|AsRef|AsMut)<.*>>::\w+
  | .*<impl\ core::convert::(?:From|Into|AsRef|AsMut)<.*>\ for\ .*>::\w+
  | core::convert::(?:From::from|Into::into|AsRef::as_ref|AsMut::as_mut|identity)
  | alloc::borrow::ToOwned::to_owned
""", re.X)
# Fallible conversions which cannot fail for other reasons than the value: reading bytes as text, and taking apart values of the language.
DECODES = {"core::str::converts::from_utf8", "alloc::string::String::from_utf8", "core::str::from_utf8", "std::str::from_utf8"}
LOCKS = re.compile(r"(?:tokio::sync|std::sync)::(?:\w+::)*(?:RwLock|Mutex)::(write|read|lock|blocking_lock|blocking_read|blocking_write)")
MAX_ENTRIES = 2


class World(Bridge):
    def __init__(self, crates, own):
        self.own = own
        models = {**functional.M, **MODELS_WORLD}
        super().__init__(crates, policy=lambda n, b, s: not b["path"].lstrip("<").startswith("pen_ffi::"), models=models, max_depth=24)
        self.entered = set()

    # A value without what wraps it.
    def plain(self, st, v, n=0):
        if n > 40:
            return v
        if v[0] == "ref":
            return self.plain(st, self.load(st, v[1]), n + 1)
        if v[0] == "init" and isinstance(v[1], tuple) and v[1][0] == "P":
            return self.plain(st, v[1][1], n + 1)
        if v[0] == "init" and isinstance(v[1], tuple) and v[1][0] == "S":
            return self.static(st, v[1]) or v
        if v[0] == "rec" and v[1] is None and len(v[4]) == 1 and v[2] not in ("vec", "array", "seq", "tuple", OPTION, RESULT):
            return self.plain(st, v[4][0][1], n + 1)
        if v[0] == "rec" and v[1] is None:
            return ("rec", None, v[2], v[3], tuple((k, self.plain(st, x, n + 1)) for k, x in v[4]))
        if v[0] == "fld":
            b = self.plain(st, v[1], n + 1)
            if b[0] == "param":
                # A newtype of a parameter is that parameter; a field of a record is not.
                return b if self.wrapper(v[2]) else ("fld", b, v[2])
            if b[0] in ("decoded", "static"):
                return b
            if b[0] == "rec":
                return self.plain(st, field(b, v[2]), n + 1)
            return ("fld", b, v[2])
        if v[0] == "cast":
            return ("cast", v[1].split("(")[0], self.plain(st, v[2], n + 1), v[3])
        if v[0] == "op":
            return ("op", v[1], self.plain(st, v[2], n + 1), self.plain(st, v[3], n + 1))
        if v[0] == "un":
            return ("un", v[1], self.plain(st, v[2], n + 1))
        if v[0] == "call":
            return ("call", 0, v[2], tuple(self.plain(st, x, n + 1) for x in v[3]))
        if v[0] == "pure":
            return ("pure", v[1], tuple(self.plain(st, x, n + 1) for x in v[2]), ())
        if v[0] in ("at", "from"):
            return self.plain(st, v[1], n + 1)
        return v

    @staticmethod
    def buffer(v):
        return v[0] in ("buffer", "filled", "first", "rest", "repeat") or v[0] == "rec" and v[1] is None and v[2] in ("vec", "array")

    def wrapper(self, name):
        return name.isdigit() or name in self.own

    def static(self, st, root):
        """What a static holds: its initialiser's value."""
        body = self.bodies.get(root[1])
        if body is None or "mir" not in body:
            return None
        s = st.copy()
        s.events = ()
        s.data = dict(s.data, static=root[1])
        traces = [(s2, v) for s2, k, v in self.run(body, [], s, (body["path"],)) if k == "return"]
        if len(traces) != 1:
            return None
        s2, v = traces[0]
        v = self.plain(s2, v)
        if v[0] in ("closure", "fn"):
            frame = {"id": 0, "body": body, "crate": body["crate"], "subst": {}}
            r = [(s3, w) for s3, k, w in self.apply(s2, frame, v, [], {"ln": 0, "to": 0}, (body["path"],)) if k == "return"]
            if len(r) != 1:
                return None
            s2, w = r[0]
            v = self.plain(s2, w)
        # Which resource it is.
        made = [e[1] for e in s2.events if e[0] == "effect"]
        if v[0] == "result" and made:
            e = next((e for e in made if e["n"] == v[1]), None)
            return ("static", root[1], e and e["op"])
        return v

    def effect(self, st, frame, op, fallible, f, args, t, asynchronous):
        st.fresh += 1
        n = st.fresh
        e = dict(op=op, fallible=fallible, args=tuple(self.plain(st, a) for a in args), n=n, asynchronous=asynchronous, fn=frame["body"]["path"], ln=t["ln"], static=st.data.get("static"),
                 type=f[3][0] if f[3] else "", writer=f[3][0] if f[3] else "")
        st.event("effect", **e)
        return n

    def opaque(self, st, frame, f, args, t):
        names = [f[1], f[4]] if f[0] == "fn" else []
        found = operation(*names)
        if found:
            op, fallible = found
            asynchronous = any(n and ("tokio::" in n) for n in names) and op not in SYNCHRONOUS
            n = self.effect(st, frame, op, fallible, f, args, t, asynchronous)
            if t.get("to") is None:
                return [(st, "panic", None)]
            buffers(self, st, op, n, args)
            out = []
            if op == "fs.read_dir":
                return [(st, "return", ("future", n))] if asynchronous else directory(self, st, n)
            if op == "env.args":
                return ret(st, functional.iterator([("argument", i) for i in range(3)]))
            if op == "command.spawn" or op in ():
                pass
            return [(st, "return", ("future", n) if asynchronous else ("result", n))]
        for n in names:
            if n and TRANSPARENT.fullmatch(n) and args:
                a = args[0]
                while a[0] == "ref" and self.load(st, a[1])[0] == "ref":
                    a = self.load(st, a[1])
                # Buffers stay where they are.
                if a[0] == "ref" and self.buffer(self.load(st, a[1])):
                    return ret(st, a if n.split("::")[-1].startswith(("deref", "as_", "borrow", "by_ref", "get_")) else self.load(st, a[1]))
                return ret(st, self.plain(st, a))
        return super().opaque(st, frame, f, args, t)


def directory(I, st, n):
    """The outcomes of reading a directory: a failure, or some entries, each of which may be one."""
    out = []
    s = st.copy()
    s.conds += ((("discr", ("result", n)), 1, "Err"),)
    out.append((s, "return", err(("fld", ("result", n), "0"))))
    for k in range(MAX_ENTRIES + 1):
        s = st.copy()
        s.conds += ((("discr", ("result", n)), 0, "Ok"),)
        s.data["entries"] = k
        st_entries = [("dirent", i) for i in range(k)]
        out.append((s, "return", ok(functional.iterator(st_entries))))
    return out


def buffers(I, st, op, n, args):
    """What operations read into buffers."""
    if op in ("io.read", "socket.recv", "socket.recv_from", "io.read_to_end", "io.read_to_string", "io.read_exact", "socket.peek", "socket.peek_from", "stream.peek", "io.read_buf", "stream.try_read") and len(args) > 1:
        a = args[1]
        while a[0] == "ref" and I.load(st, a[1])[0] == "ref":
            a = I.load(st, a[1])
        if a[0] == "ref":
            old = I.plain(st, a)
            I.store(st, a[1], ("filled", n, op, old))


MODELS_WORLD = {}


def on(*names):
    def decorate(f):
        for n in names:
            MODELS_WORLD[n] = f
        return f
    return decorate


@on("core::future::future::Future::poll")
def poll(I, st, frame, f, args, t, stack):
    v, n = args[0], 0
    while v[0] == "ref" and n < 12:
        place, v, n = v[1], I.load(st, v[1]), n + 1
    if v[0] == "closure":
        body = I.resolve(frame, v)
        if body is None or not body.get("coroutine"):
            return None
        return [(s, k, ready(r) if k == "return" else r) for s, k, r in I.run_closure(st, v, body, [args[1]], stack, frame)]
    v = I.plain(st, v)
    if v[0] == "future":
        st.data["awaited"] = st.data.get("awaited", ()) + (v[1],)
        e = next(e[1] for e in st.events if e[0] == "effect" and e[1]["n"] == v[1])
        if e["op"] == "fs.read_dir":
            return [(s, k, ready(r)) for s, k, r in directory(I, st, v[1])]
        return ret(st, ready(("result", v[1])))
    if v[0] == "rec" and v[2] == "readyfuture":
        return ret(st, ready(field(v, "0")))
    if v[0] == "guard":
        return ret(st, ready(v[1]))
    if v[0] == "next":
        return next_entry(I, st, v)
    return ret(st, ready(("awaited", v)))


def next_entry(I, st, v):
    """The next entry of a directory, or of another list from outside."""
    place, kind = v[1], v[2]
    w = I.load(st, place)
    xs = w[2]
    if not xs:
        return ret(st, ready(ok(NONE) if kind == "entry" else NONE))
    I.store(st, place, functional.iterator(xs[1:]))
    if kind == "item":
        return ret(st, ready(some(xs[0])))
    out = []
    for i, n in enumerate(("Ok", "Err")):
        s = st.copy()
        s.conds += ((("discr", xs[0]), i, n),)
        out.append((s, "return", ready(ok(some(("fld", xs[0], "0"))) if n == "Ok" else err(("fld", xs[0], "0")))))
    return out


@on("tokio::fs::read_dir::ReadDir::next_entry")
def _(I, st, frame, f, args, t, stack):
    a = args[0]
    while a[0] == "ref" and I.load(st, a[1])[0] == "ref":
        a = I.load(st, a[1])
    return ret(st, ("next", a[1], "entry")) if a[0] == "ref" and I.load(st, a[1])[0] == "iter" else None


@on("futures_util::stream::stream::StreamExt::next", "futures::stream::StreamExt::next", "tokio_stream::StreamExt::next", "tokio_stream::stream_ext::StreamExt::next")
def _(I, st, frame, f, args, t, stack):
    a = args[0]
    while a[0] == "ref" and I.load(st, a[1])[0] == "ref":
        a = I.load(st, a[1])
    if a[0] == "ref":
        w = I.load(st, a[1])
        place, n = a[1], 0
        while w[0] == "rec" and len(w[4]) == 1 and n < 4:
            place, w, n = (place[0], place[1] + (("f", w[4][0][0], w[2]),)), w[4][0][1], n + 1
        if w[0] == "iter":
            return ret(st, ("next", place, "item"))
    return None


@on("pen_ffi::future::stream::from_list")
def _(I, st, frame, f, args, t, stack):
    """The elements of a list of the language."""
    v = I.plain(st, args[0])
    out = []
    for k in range(MAX_ENTRIES + 1):
        s = st.copy()
        s.data["elements"] = (v, k)
        out.append((s, "return", functional.iterator([("element", v, i) for i in range(k)])))
    return out


def try_into(I, st, frame, f, args, t, stack):
    """Taking apart values of the language: their types are right."""
    if args and any(x and "TryInto" in x or x and "TryFrom" in x for x in (f[1], f[4])):
        types = " ".join(f[3])
        if "pen_ffi::" in types or "Inner" in types:
            return ret(st, ok(I.plain(st, args[0]) if "&" not in types else args[0]))
    return None


on("core::convert::TryInto::try_into", "<T as core::convert::TryInto<U>>::try_into", "core::convert::TryFrom::try_from")(try_into)


def lock(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    if any(n and "tokio::" in n for n in (f[1], f[4])) and not f[1].split("::")[-1].startswith("blocking"):
        return ret(st, ("guard", v))
    return ret(st, ok(v))


for k in ("rwlock::RwLock", "mutex::Mutex", "poison::rwlock::RwLock", "poison::mutex::Mutex", "RwLock", "Mutex"):
    for m in ("read", "write", "lock", "blocking_lock", "blocking_read", "blocking_write", "write_owned", "read_owned", "lock_owned"):
        on(f"tokio::sync::{k}::{m}", f"std::sync::{k}::{m}")(lock)


@on("pen_ffi::any::Any::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, I.plain(st, args[1]))


@on("std::sync::lazy_lock::LazyLock::new", "core::cell::lazy::LazyCell::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, args[0])


def decode(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    st.fresh += 1
    n = ("decode", st.fresh, v)
    out = []
    for i, k in enumerate(("Ok", "Err")):
        s = st.copy()
        if I.refine(s, ("discr", n), i, i):
            s.conds += ((("discr", n), i, k),)
            out.append((s, "return", ok(v) if k == "Ok" else err(("fld", n, "0"))))
    return out


for k in DECODES:
    on(k)(decode)


@on("alloc::vec::from_elem")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("buffer", I.plain(st, args[1])))


@on("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def _(I, st, frame, f, args, t, stack):
    return ret(st, vec([]))


@on("alloc::vec::Vec::truncate", "alloc::string::String::truncate", "bytes::bytes_mut::BytesMut::truncate")
def _(I, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    I.store(st, args[0][1], ("first", I.plain(st, args[0]), I.plain(st, args[1])))
    return ret(st, UNIT)


@on("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::split_at")
def _(I, st, frame, f, args, t, stack):
    v, r = I.plain(st, args[0]), args[1]
    if v[0] in ("filled", "first", "buffer", "param", "decoded") and r[0] == "rec":
        r = {k: I.plain(st, x) for k, x in r[4]}
        if "start" in r and r["start"] != integer(0, "usize") and r["start"][:2] != ("int", 0):
            v = ("rest", v, r["start"])
        v = ("first", v, r["end"]) if "end" in r else v
        return ret(st, v)
    return functional.M["core::ops::index::Index::index"](I, st, frame, f, args, t, stack) if "index" in f[4] else None


def setter(name):
    def m(I, st, frame, f, args, t, stack):
        a = args[0]
        while a[0] == "ref" and I.load(st, a[1])[0] == "ref":
            a = I.load(st, a[1])
        if a[0] != "ref":
            return None
        I.store(st, a[1], with_field(I.load(st, a[1]), name, I.plain(st, args[1])))
        return ret(st, a)
    return m


def pure(I, st, frame, f, args, t, stack):
    name = strip(f[4]) if "ToString" in f[4] else f[1]
    return ret(st, ("pure", name.split("::")[-1] if "ToString" not in name else "to_string", tuple(I.plain(st, a) for a in args), ()))


on("<T as alloc::string::ToString>::to_string", "alloc::string::ToString::to_string", "std::time::SystemTimeError::duration",
   *(f"core::time::Duration::{m}{u}" for m, us in (("from_", ("secs", "millis", "micros", "nanos", "secs_f64", "secs_f32")), ("as_", ("secs", "millis", "micros", "nanos", "secs_f64", "secs_f32", "millis_f64")),
                                                   ("subsec_", ("millis", "micros", "nanos"))) for u in us),
   "std::ffi::os_str::OsStr::to_string_lossy", "alloc::string::String::from_utf8_lossy", "std::path::Path::to_string_lossy", "std::path::Path::display", "core::net::socket_addr::SocketAddr::ip", "core::net::socket_addr::SocketAddr::port", "core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max",
   "core::f64::<impl f64>::min", "core::f64::<impl f64>::max")(pure)


TEXT_CHANGES = ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat", "trim_ascii",
                "trim_ascii_start", "trim_ascii_end")
on(*(f"{k}::{m}" for m in TEXT_CHANGES for k in ("core::str::<impl str>", "alloc::str::<impl str>", "core::slice::ascii::<impl [u8]>")))(pure)


def attempt(I, st, frame, f, args, t, stack):
    """Locks which may be held by others."""
    v = I.plain(st, args[0])
    st.fresh += 1
    out = []
    for i, k in enumerate(("Ok", "Err")):
        s = st.copy()
        s.conds += ((("discr", ("contended", st.fresh)), i, k),)
        out.append((s, "return", ok(v) if k == "Ok" else err(("sym", "contended", 0))))
    return out


for k in ("tokio::sync::rwlock::RwLock", "tokio::sync::mutex::Mutex", "std::sync::poison::rwlock::RwLock", "std::sync::poison::mutex::Mutex"):
    on(*(f"{k}::try_{m}" for m in ("lock", "read", "write", "lock_owned", "read_owned", "write_owned")))(attempt)


OPTIONS = ("append", "create", "create_new", "read", "truncate", "write")
for prefix in ("std::fs::", "tokio::fs::open_options::", "tokio::fs::"):
    on(prefix + "OpenOptions::new")(lambda I, st, frame, f, args, t, stack: ret(st, rec("options", None, [(n, integer(0, "bool")) for n in OPTIONS])))
    on(prefix + "File::options")(MODELS_WORLD[prefix + "OpenOptions::new"])
    for n in OPTIONS:
        on(prefix + "OpenOptions::" + n)(setter(n))


@on("std::process::Command::new", "tokio::process::Command::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, rec("command", None, [("program", I.plain(st, args[0])), ("arguments", vec([]))]))


@on("std::process::Command::arg", "tokio::process::Command::arg", "std::process::Command::args", "tokio::process::Command::args")
def _(I, st, frame, f, args, t, stack):
    a = args[0]
    while a[0] == "ref" and I.load(st, a[1])[0] == "ref":
        a = I.load(st, a[1])
    if a[0] != "ref":
        return None
    v = I.load(st, a[1])
    old = listed(field(v, "arguments"))
    if f[1].endswith("::arg"):
        new = [I.plain(st, args[1])]
    else:
        w = functional.as_iterator(I, st, args[1])
        if w is None or old is None:
            return None
        r = functional.drain(functional.Ctx(I, frame, t, stack), st, w)
        if len(r) != 1 or r[0][1] != "return":
            return None
        new = [I.plain(r[0][0], x) for x in r[0][2]]
    I.store(st, a[1], with_field(v, "arguments", vec(old + new)))
    return ret(st, a)


# ---- running ----------------------------------------------------------------------------------------------------------
def paths(I, f, body):
    """The paths of a function: (state, outcome, value without what wraps it)."""
    args = [("param", i) for i in range(len(f["inputs"]))]
    out = []
    for s, k, v in I.run(body, args, State(), (body["path"],)):
        frame = {"id": 0, "body": body, "crate": body["crate"], "subst": {}}
        rs = [(s, k, v)]
        if k == "return" and v[0] == "closure":
            rs = I.run_closure(s, v, I.resolve(frame, v), [("sym", "context", 0)], (body["path"],), frame)
        out += [(s2, k2, I.plain(s2, v2) if v2 is not None else None) for s2, k2, v2 in rs]
    return out
