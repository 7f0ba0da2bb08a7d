"""What the packages ask of the operating system: C02."""
import facts, effects
from absint import field
from bridge import RESULT

PACKAGES = ("os/ffi/library", "os-sync/ffi/library")
P = tuple(("param", i) for i in range(4))
# What changes the state of the system; nothing does unless it is asked to.
CHANGES = {"fs." + n for n in "copy rename remove_file create_dir create_dir_all remove_dir remove_dir_all hard_link soft_link symlink write set_permissions".split()} | {
    "options.open", "file.create", "file.create_new", "file.set_len", "file.set_permissions", "file.set_modified", "io.write", "io.write_all", "io.write_vectored", "io.write_fmt", "io.write_buf", "io.write_all_buf", "io.write_u8",
    "io.shutdown", "stream.shutdown", "stream.connect", "stream.connect_timeout", "listener.bind", "listener.accept", "socket.bind", "socket.connect", "socket.send", "socket.send_to", "socket.recv", "socket.recv_from", "stdio._print",
    "stdio._eprint", "env.set_var", "env.remove_var", "env.set_current_dir", "process.exit", "process.abort", "command.output", "command.spawn", "command.status", "child.kill", "child.start_kill", "io.read", "io.read_to_end",
    "io.read_to_string", "io.read_exact", "io.read_line", "io.read_until", "io.seek", "io.rewind", "time.sleep", "stdio.copy", "stream.try_read", "stream.try_write", "socket.try_recv", "socket.try_recv_from", "socket.try_send",
    "socket.try_send_to"}
# Operations whose changes the system may hold back until they are flushed.
BUFFERED = ("tokio::fs::file::File", "tokio::io::stdout::Stdout", "tokio::io::stderr::Stderr", "tokio::io::util::buf_writer::BufWriter", "std::io::buffered::bufwriter::BufWriter", "std::io::buffered::linewriter::LineWriter",
            "alloc::io::buffered::bufwriter::BufWriter", "alloc::io::buffered::linewriter::LineWriter")
KNOWN_CONDITIONS = ("result", "decode", "dirent", "contended")
OPEN = ("append", "create", "create_new", "read", "truncate", "write")


def okay(n):
    return ("fld", ("result", n), "0")


def count(v):
    return ("cast", "IntToFloat", v, "f64")


def natural(v, t):
    return ("cast", "FloatToInt", v, t)


# What a function asks for: [(operations, arguments)], and what it returns, given the numbers of the operations.
def specification():
    S = {}

    def add(name, *operations, value=None, ends=False, unordered=False):
        S["_pen_os_" + name] = dict(operations=operations, value=value, ends=ends, unordered=unordered)
    add("open_file", (("options.open",), (("options", P[1]), P[0])), value=lambda n, s: okay(n[0]))
    for where, source, shift in (("file", P[0], 1), ("stdin", "stdio.stdin", 0)):
        add("read_" + where, (("io.read_to_end",), (source, ANYTHING)), value=lambda n, s: ("all", n[0]))
        add("read_limit_" + where, (("io.read",), (source, ("buffer", natural(P[shift], "usize")))), value=lambda n, s: ("read", n[0]))
    for where, target, shift in (("file", P[0], 1), ("stdout", "stdio.stdout", 0), ("stderr", "stdio.stderr", 0)):
        add("write_" + where, (("io.write", "io.write_all"), (target, P[shift])), value=lambda n, s: ("written", n[0]))
    for name, op in (("copy_file", "fs.copy"), ("move_file", "fs.rename")):
        add(name, ((op,), (P[0], P[1])), value=lambda n, s: ("anything",))
    for name, op in (("remove_file", "fs.remove_file"), ("create_directory", "fs.create_dir"), ("remove_directory", "fs.remove_dir")):
        add(name, ((op,), (P[0],)), value=lambda n, s: ("anything",))
    add("read_metadata", (("fs.metadata", "path.metadata"), (P[0],)), (("metadata.len",), (("ok", 0),)), value=lambda n, s: count(("result", n[1])))
    add("read_directory", (("fs.read_dir", "path.read_dir"), (P[0],)), value=lambda n, s: ("entries",), unordered=True)
    add("get_arguments", (("env.args",), ()), value=lambda n, s: ("arguments",))
    add("get_environment_variable", (("env.var",), (P[0],)), value=lambda n, s: okay(n[0]))
    add("exit", (("process.exit",), (natural(P[0], "i32"),)), ends=True)
    add("run_command", (("command.output", "command.status"), (("command", P[0], P[1]),)), value=lambda n, s: ("anything",))
    add("get_time", (("clock.now",), ()), (("clock.duration_since",), (("raw", 0), ANYTHING)), value=lambda n, s: count(("pure", "as_millis", (okay(n[1]),), ())))
    add("sleep", (("time.sleep",), (("pure", "from_millis", (natural(P[0], "u64"),), ()),)), value=lambda n, s: ("anything",))
    add("tcp_bind", (("listener.bind",), (P[0],)), value=lambda n, s: okay(n[0]))
    add("tcp_connect", (("stream.connect",), (P[0],)), value=lambda n, s: okay(n[0]))
    add("tcp_accept", (("listener.accept",), (P[0],)), value=lambda n, s: ("record", ("fld", okay(n[0]), "0"), ("pure", "to_string", (("fld", okay(n[0]), "1"),), ())))
    add("tcp_receive", (("io.read",), (P[0], ("buffer", natural(P[1], "usize")))), value=lambda n, s: ("read", n[0]))
    add("tcp_send", (("io.write", "io.write_all"), (P[0], P[1])), value=lambda n, s: ("written", n[0]))
    add("udp_bind", (("socket.bind",), (P[0],)), value=lambda n, s: okay(n[0]))
    add("udp_connect", (("socket.connect",), (P[0], P[1])), value=lambda n, s: ("anything",))
    add("udp_receive", (("socket.recv", "socket.recv_from"), (P[0], ("datagram",))), value=lambda n, s: ("read", n[0]))
    add("udp_receive_from", (("socket.recv_from",), (P[0], ("datagram",))),
        value=lambda n, s: ("record", ("read", n[0]), ("pure", "to_string", (("fld", okay(n[0]), "1"),), ())))
    add("udp_send", (("socket.send",), (P[0], P[1])), value=lambda n, s: ("written", n[0]))
    add("udp_send_to", (("socket.send_to",), (P[0], P[1], P[2])), value=lambda n, s: ("written", n[0]))
    return S


ANYTHING = ("anything",)
MIN_DATAGRAM = 512
SPECIFICATION = specification()


def variant(c):
    """The variant which a condition on an outcome says."""
    if c[2] is not None:
        return c[2]
    n = c[1] if isinstance(c[1], int) else 1 - c[1][1][0] if isinstance(c[1], tuple) and c[1][0] == "not" and len(c[1][1]) == 1 and c[1][1][0] in (0, 1) else None
    return {0: "Ok", 1: "Err"}.get(n)


def mentions(v, heads):
    return isinstance(v, tuple) and (bool(v) and v[0] in heads or any(mentions(x, heads) for x in v))


OPAQUE = ("call", "after", "sym", "init", "awaited", "unknown", "ref", "closure", "fn", "havoc", "constant", "iter", "next", "alloc", "overflow")


def known(v):
    """Whether what a term means is known."""
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] in OPAQUE:
        return False
    if v[0] == "pure" and v[1] not in PURE:
        return False
    return all(known(x) for x in v if isinstance(x, tuple))


PURE = ("as_millis", "as_secs", "as_micros", "as_nanos", "as_secs_f64", "as_secs_f32", "as_millis_f64", "duration", "to_string", "from_millis", "from_secs", "from_micros", "from_nanos", "from_secs_f64",
        "from_secs_f32", "subsec_millis", "subsec_micros", "subsec_nanos", "len", "min", "max", "core::slice::<impl [T]>::len", *effects.TEXT_CHANGES, "to_string_lossy", "from_utf8_lossy", "display", "ip", "port")


WIDE = ("u64", "i64", "u128", "i128", "usize", "isize")


def tidy(v):
    """A term without casts which keep every value."""
    if not isinstance(v, tuple):
        return v
    v = tuple(tidy(x) for x in v)
    if len(v) == 4 and v[0] == "cast" and v[1] == "IntToInt" and v[3] in WIDE:
        return v[2]
    if len(v) == 4 and v[0] == "cast" and v[1] == "IntToFloat" and isinstance(v[2], tuple) and v[2] and v[2][0] == "cast" and v[2][1] == "IntToInt" and v[2][3] in WIDE:
        return v[:2] + (v[2][2], v[3])
    return v


class Function:
    def __init__(self, check, world, package, name, f):
        self.check, self.world, self.package, self.name, self.f = check, world, package, name, f
        self.spec = SPECIFICATION[name]
        self.undecided = 0

    def wrong(self, what, message, ln=None):
        self.check.violation(f"{what}:{self.package}:{self.name}", f"{self.name} {message}", f"packages/{self.package}/{self.f['file']}:{ln or self.f['line']}")

    def resource(self, s, v, op):
        """Whether a term is a standard stream."""
        if v[0] == "static":
            return v[2] == op
        e = next((e for e in self.effects(s) if ("result", e["n"]) == v), None)
        return e is not None and e["op"] == op

    @staticmethod
    def effects(s):
        return [e[1] for e in s.events if e[0] == "effect"]

    def argument(self, s, numbers, expected, v):
        """None if it is what is expected or unknown, or what it is."""
        if expected == ANYTHING:
            return None
        v = tidy(v)
        if isinstance(expected, str):
            return None if self.resource(s, v, expected) or not known(v) and v[0] != "static" else f"something other than {expected.split('.')[1]}"
        if expected[0] == "options":
            if v[0] != "rec" or v[2] != "options":
                return None if not known(v) else "other options"
            for n in OPEN:
                x = field(v, n)
                if known(x) and x != ("fld", expected[1], n):
                    return f"the option {n} as {self.term(x)}"
            return None
        if expected[0] == "command":
            if v[0] != "rec" or v[2] != "command":
                return None
            program, xs = field(v, "program"), effects.listed(field(v, "arguments"))
            if known(program) and program != expected[1]:
                return f"{self.term(program)} as the program"
            of, k = s.data.get("elements", (None, None))
            if xs is None or of != expected[2]:
                return None
            want = [("element", expected[2], i) for i in range(k)]
            return None if xs == want or not all(known(x) for x in xs) else f"the arguments {', '.join(map(self.term, xs)) or 'none'} where {k} are given"
        if expected[0] == "datagram":
            if v[0] == "buffer" and v[1][0] == "int" and v[1][1] < MIN_DATAGRAM:
                return f"a buffer of {v[1][1]} bytes, which cannot hold datagrams of {MIN_DATAGRAM} bytes"
            return "an empty buffer" if v == ("rec", None, "vec", None, ()) else None
        if expected[0] == "buffer":
            if v == ("rec", None, "vec", None, ()):
                return "an empty buffer"
            if v[0] != "buffer":
                return None
        if mentions(v, ("pure",)) and any(n in str(v) for n in ("from_secs_f64", "from_secs_f32")) and not any(n in str(v) for n in ("max", "clamp", "abs")):
            return f"{self.term(v)}, which panics for negative numbers,"
        if expected[0] == "ok":
            expected = okay(numbers[expected[1]])
        if expected[0] == "raw":
            expected = ("result", numbers[expected[1]])
        # A constant which it is found to be.
        if v[0] == "int" and any(c[0] == expected and c[1] == v[1] or c[0] == ("op", "Eq", expected, v) and c[1] != 0 for c in s.conds):
            return None
        return None if v == expected or not known(v) else self.term(v)

    def term(self, v):
        names = self.f["args"] if self.f.get("args") else []
        if v[0] == "param":
            return names[v[1]] if v[1] < len(names) and names[v[1]] else f"the parameter {v[1] + 1}"
        if v[0] == "int":
            return str(v[1])
        if v[0] == "str":
            return repr(v[1])
        if v[0] == "fld":
            return f"{self.term(v[1])}.{v[2]}" if v[1][0] != "result" else "the outcome of an operation"
        if v[0] == "cast":
            return f"{self.term(v[2])} as {v[3]}"
        if v[0] == "pure":
            return f"{v[1]}({', '.join(self.term(x) for x in v[2])})"
        if v[0] == "first":
            return f"{self.term(v[1])}[..{self.term(v[2])}]"
        if v[0] == "rest":
            return f"{self.term(v[1])}[{self.term(v[2])}..]"
        if v[0] == "filled":
            return f"what {v[2].split('.')[1]} read"
        if v[0] == "buffer":
            return f"a buffer of {self.term(v[1])}"
        if v[0] == "rec" and v[2] == "vec":
            return "[" + ", ".join(self.term(x) for _, x in v[4]) + "]"
        if v[0] == "result":
            return "the outcome of an operation"
        if v[0] in ("element", "argument", "dirent"):
            return f"{v[0]} {v[-1]}"
        return v[0]

    def value(self, s, numbers, expected, v):
        """None if a result is what is expected or unknown, or what it is."""
        v = tidy(v)
        if expected == ANYTHING:
            return None
        if expected[0] == "record":
            if v[0] != "rec" or len(v[4]) != len(expected) - 1:
                return None if not known(v) else self.term(v)
            for e, (n, x) in zip(expected[1:], v[4]):
                wrong = self.value(s, numbers, e, x)
                if wrong:
                    return f"{wrong} as {n}"
            return None
        if expected[0] == "all":
            n = expected[1]
            if v[:2] == ("filled", n):
                return None if v[3] == ("rec", None, "vec", None, ()) or not known(v[3]) else "more than what was read"
            return self.term(v) if known(v) else None
        if expected[0] == "read":
            n = expected[1]
            e = next(e for e in self.effects(s) if e["n"] == n)
            if not known(v):
                return None
            # What was read, up to how much it was; the whole is the same where so much was read.
            size = ("fld", okay(n), "0") if e["op"] == "socket.recv_from" else okay(n)
            if v[0] == "first" and v[1][:2] == ("filled", n) and v[2] == size:
                return None
            if v[0] == "first" and v[1][:2] == ("filled", n) and v[2][0] == "pure" and size in v[2][2]:
                return None
            # A comparison of how much was read with how much could be.
            if v[:2] == ("filled", n) and any(c[0][0] == "op" and size in c[0][2:] and all(x == size or x[0] != "int" or v[3] == ("buffer", x) for x in c[0][2:]) for c in s.conds):
                return None
            if v == ("rec", None, "vec", None, ()) and any(c[0] == size and c[1] == 0 for c in s.conds):
                return None
            return self.term(v)
        if expected[0] == "written":
            n = expected[1]
            e = next(e for e in self.effects(s) if e["n"] == n)
            whole = count(("pure", "len", (e["args"][1],), ()))
            if e["op"] == "io.write_all":
                return None if v == whole or not known(v) or mentions(v, ("pure",)) else self.term(v)
            return None if v == count(okay(n)) or not known(v) else self.term(v)
        if expected[0] == "arguments":
            xs = effects.listed(v)
            if xs is None:
                return None
            return None if xs == [("argument", 1), ("argument", 2)] or not all(map(known, xs)) else f"the arguments {[x[1] for x in xs if x[0] == 'argument']} of [0, 1, 2], where the first is the program"
        if expected[0] == "entries":
            xs = effects.listed(v)
            if xs is None:
                return None
            k = s.data.get("entries")
            names = {("fld", ("result", e["n"]), "0"): e["args"][0] for e in self.effects(s) if e["op"] == "entry.file_name"}
            names.update({("result", e["n"]): e["args"][0] for e in self.effects(s) if e["op"] == "entry.file_name"})
            if not all(map(known, xs)):
                return None
            got = sorted(str(names.get(x, x)) for x in xs)
            want = sorted(str(("fld", ("dirent", i), "0")) for i in range(k))
            return None if got == want else f"{len(xs)} names ({', '.join(self.term(x) for x in xs)}) for {k} entries"
        return None if v == expected or not known(v) else self.term(v)

    def run(self):
        check, spec = self.check, self.spec
        body = self.world.bodies[self.f["path"]]
        check.analysed([self.f["path"]])
        accepted = {op for ops, _ in spec["operations"] for op in ops}
        finished = 0
        for s, kind, v in effects.paths(self.world, self.f, body):
            check.ok("paths")
            es = self.effects(s)
            calls = [e for e in s.events if e[0] == "call"]
            strange = [c for c in s.conds if not (c[0][0] == "discr" and isinstance(c[0][1], tuple) and c[0][1][0] in KNOWN_CONDITIONS)]
            certain = not calls and not strange
            failed = [c for c in s.conds if c[0][0] == "discr" and c[0][1][0] in KNOWN_CONDITIONS and variant(c) == "Err"]
            numbers = [next((e["n"] for e in es if e["op"] in ops), None) for ops, _ in spec["operations"]]
            exits = any(e["op"] == "process.exit" for e in es)
            # Changes nobody asked for.
            for e in es:
                check.ok("operations")
                if e["op"] in CHANGES and e["op"] not in accepted and not (spec["ends"] and e["op"] == "time.sleep"):
                    instead = " and ".join("/".join(o) for o, _ in spec["operations"])
                    if not (set(e["op"].split(".")[:1]) <= {"io", "stream", "socket"} and self.equivalent(e["op"], accepted)):
                        self.wrong("operation:" + e["op"], f"does {e['op']}, where {instead} is what it is for", e["ln"])
            # The arguments.
            for (ops, args), n in zip(spec["operations"], numbers):
                for e in es:
                    if e["op"] in ops:
                        for i, (x, a) in enumerate(zip(args, e["args"])):
                            got = self.argument(s, numbers, x, a)
                            check.require(got is None, "arguments", f"argument:{self.package}:{self.name}:{e['op']}:{i}", f"{self.name} gives {got} to {e['op']}", f"packages/{self.package}/{self.f['file']}:{e['ln']}")
                        if sum(x["op"] == e["op"] for x in es) > 1 and e["op"] in CHANGES and certain and not any(o["op"] == e["op"] and self.failed(s, o["n"]) for o in es):
                            self.wrong("twice", f"does {e['op']} more than once", e["ln"])
            if kind == "panic":
                if not exits and not strange and not calls:
                    why = "; ".join(self.condition(c) for c in failed) or "always"
                    self.wrong("panic", f"panics ({why}), where it should fail")
                continue
            if kind != "return":
                self.undecided += 1
                continue
            if spec["ends"]:
                check.require(exits or not certain, "ends", f"ends:{self.package}:{self.name}", f"{self.name} returns without {' '.join(o for o, _ in [(spec['operations'][0][0][0], 0)])}", f"packages/{self.package}/{self.f['file']}:{self.f['line']}")
                continue
            # Futures.
            for e in es:
                if e["asynchronous"] and e["n"] not in s.data.get("awaited", ()) and not calls:
                    self.wrong("await", f"does not wait for {e['op']}", e["ln"])
            failure = v is not None and v[0] == "rec" and v[2] == RESULT and v[3] == "Err"
            if failed and self.name != "_pen_os_get_time":
                if failure or v is not None and v[0] == "result":
                    check.ok("failures are reported")
                elif not calls:
                    self.wrong("swallowed", f"succeeds although {'; '.join(self.condition(c) for c in failed)}")
                # What follows a failure.
                first = min((c[0][1][1] for c in failed if c[0][1][0] == "result"), default=None)
                if first is not None and certain:
                    for e in es:
                        if e["n"] > first and e["op"] in CHANGES:
                            self.wrong("after", f"does {e['op']} after {'; '.join(self.condition(c) for c in failed)}", e["ln"])
                continue
            if self.name == "_pen_os_get_time" and failed:
                continue
            if failure:
                if certain:
                    self.wrong("refuses", "fails although nothing it asks for does")
                continue
            # Outcomes nobody looked at.
            for e in es:
                if e["fallible"] and not calls and v != ("result", e["n"]) and not any(c[0] == ("discr", ("result", e["n"])) for c in s.conds):
                    self.wrong("ignored:" + e["op"], f"ignores whether {e['op']} fails", e["ln"])
            missing = [ops for (ops, _), n in zip(spec["operations"], numbers) if n is None]
            if missing:
                if not calls and not any(self.equivalent(e["op"], accepted) for e in es) and not strange:
                    self.wrong("missing", f"succeeds without {' or '.join(missing[0])}")
                else:
                    self.undecided += 1
                continue
            finished += 1
            # Written bytes arrive.
            for e in es:
                if e["op"] in ("io.write", "io.write_all") and any(b in e["writer"] for b in BUFFERED):
                    later = [x for x in es if x["n"] > e["n"] and x["op"] in ("io.flush", "file.sync_all", "file.sync_data", "io.shutdown") and x["args"][:1] == e["args"][:1]]
                    check.require(later or calls, "flushes", f"flush:{self.package}:{self.name}", f"{self.name} succeeds before what it writes is flushed", f"packages/{self.package}/{self.f['file']}:{e['ln']}")
            if calls:
                self.undecided += 1
            result = v
            if v[0] == "rec" and v[2] == RESULT:
                result = field(v, "0")
            elif v[0] == "result":
                result = ("fld", v, "0")
            wrong = self.value(s, numbers, spec["value"](numbers, s), result)
            check.require(wrong is None, "results", f"value:{self.package}:{self.name}", f"{self.name} returns {wrong}", f"packages/{self.package}/{self.f['file']}:{self.f['line']}")
        if self.undecided:
            check.note(f"{self.name} of {self.package}: {self.undecided} paths are not decided")

    # Other ways to do the same.
    @staticmethod
    def equivalent(op, accepted):
        same = [{"io.read", "stream.try_read", "io.read_buf", "io.read_to_end", "stream.readable"}, {"io.write", "io.write_all", "io.write_vectored", "stream.try_write", "stream.writable", "io.write_buf", "io.write_all_buf"},
                {"socket.recv", "socket.try_recv", "socket.readable", "socket.recv_buf"}, {"socket.recv_from", "socket.try_recv_from", "socket.readable", "socket.recv_buf_from"}, {"socket.send", "socket.try_send", "socket.writable"},
                {"socket.send_to", "socket.try_send_to", "socket.writable"}, {"fs.metadata", "path.metadata", "file.metadata"}, {"env.args", "env.args_os"}, {"env.var", "env.var_os"},
                {"command.output", "command.status", "command.spawn", "child.wait", "child.wait_with_output"}, {"time.sleep", "time.sleep_until"}, {"fs.read_dir", "path.read_dir"}]
        return any(op in g and g & accepted for g in same)

    def failed(self, s, n):
        return any(c[0] == ("discr", ("result", n)) and variant(c) == "Err" for c in s.conds)

    def condition(self, c):
        x = c[0][1]
        if x[0] == "result":
            return "an operation fails"
        if x[0] == "decode":
            return f"{self.term(x[2])} is not text"
        if x[0] == "dirent":
            return "an entry of the directory cannot be read"
        return "others use the same resource"


def operations(check):
    check.rule("every function does the operation it is named after, with its parameters in their roles, once, and nothing else which changes the state of the system")
    check.rule("every outcome of an operation is looked at: its failure is the function's, with nothing done after it, and its success gives what it read or counted; futures are awaited and writes which may be held back are flushed")
    check.rule("nothing panics for texts which cannot be decoded, failures of operations, or resources in use")
    if check.tier == "thorough":
        effects.MAX_ENTRIES = 4
    found = 0
    for package in PACKAGES:
        own = [c for c in facts.load("pkg:" + package).values()]
        crates = own + [facts.load("ffi")["pen_ffi"]]
        fields = {f["name"] for c in own for a in c.adts.values() if len(a["variants"]) == 1 and len(a["variants"][0]["fields"]) == 1 for f in a["variants"][0]["fields"]}
        by_name = {}
        for c in own:
            for f in c.items["fns"]:
                name = next((p for p in f["path"].split("::") if p in SPECIFICATION), None)
                if name is not None:
                    by_name.setdefault(name, {})["run" if f["path"].endswith("::run") else f["path"].split("::")[-1]] = f
                elif f["path"].split("::")[-1].startswith("_pen_") and not f["path"].endswith("_to_any"):
                    check.note(f"{f['path']} of {package} is not specified")
        for name, fs in sorted(by_name.items()):
            # What the macro makes of a function: its body is in a function of its own, unless it returns nothing.
            f = fs.get("run") or fs.get("create_future") or fs.get(name)
            if f is None:
                continue
            found += 1
            try:
                Function(check, effects.World(crates, fields), package, name, f).run()
            except (IndexError, KeyError, TypeError, ValueError, AttributeError, StopIteration) as e:
                check.note(f"{name} of {package} is not decided: {type(e).__name__}: {e}")
    check.require(found > 0, "functions", "functions", "no functions of the packages are found")
