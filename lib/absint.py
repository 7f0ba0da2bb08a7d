"""A trace-partitioning abstract interpreter over the MIR graphs of the fact base.

Values are terms; integers carry intervals with excluded points; loops are widened at their heads (everything the loop
writes is forgotten) and their bodies traversed once; calls to functions of the fact base are analysed in place, so a
helper extracted or inlined changes nothing; other calls become events.  What a checker sees is, per abstract trace,
the ordered list of events, the facts on its branches and the returned value.
"""
import functools, re

INF = float("inf")
ENUMS = {
    "core::option::Option": ["None", "Some"],
    "core::result::Result": ["Ok", "Err"],
    "core::task::poll::Poll": ["Ready", "Pending"],
    "core::ops::control_flow::ControlFlow": ["Continue", "Break"],
    "alloc::borrow::Cow": ["Borrowed", "Owned"],
    "core::sync::atomic::Ordering": ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"],
}
SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8,
         "usize": 8, "isize": 8, "u128": 16, "i128": 16, "()": 0, "core::sync::atomic::Atomic<isize>": 8, "core::sync::atomic::Atomic<usize>": 8}
UNIT = ("rec", None, "()", None, ())


class Limit(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "events", "conds", "fresh", "data")

    def __init__(self):
        self.mem, self.facts, self.events, self.conds, self.fresh, self.data = {}, {}, (), (), 0, {}

    def copy(self):
        s = State.__new__(State)
        s.mem, s.facts, s.data = dict(self.mem), dict(self.facts), dict(self.data)
        s.events, s.conds, s.fresh = self.events, self.conds, self.fresh
        return s

    def event(self, kind, **fields):
        self.events = self.events + ((kind, fields),)

    def new(self, label):
        self.fresh += 1
        return ("sym", label, self.fresh)


def integer(n, ty=""):
    return ("int", n, ty)


def rec(adt, variant, fields):
    return ("rec", None, adt, variant, tuple(fields))


def some(x):
    return rec("core::option::Option", "Some", [("0", x)])


NONE = rec("core::option::Option", "None", [])


def field(value, name):
    name = str(name)
    if value[0] == "rec":
        for n, v in value[4]:
            if n == name:
                return v
        if value[1] is not None:
            return ("fld", value[1], name)
        return ("fld", value, name)
    if value[0] == "ite":
        return ("ite", value[1], field(value[2], name), field(value[3], name))
    return ("fld", value, name)


def with_field(value, name, v):
    name = str(name)
    if value[0] == "rec":
        fields = tuple((n, x) for n, x in value[4] if n != name) + ((name, v),)
        return ("rec", value[1], value[2], value[3], tuple(sorted(fields)) if value[1] else fields)
    return ("rec", value, None, None, ((name, v),))


def subterms(t):
    if not isinstance(t, tuple) or not t:
        return
    if not isinstance(t[0], str):
        for x in t:
            yield from subterms(x)
        return
    yield t
    if t[0] == "rec":
        yield from subterms(t[1])
        for _, v in t[4]:
            yield from subterms(v)
        return
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from subterms(x)


def contains(t, u):
    return any(x == u for x in subterms(t))


class Interp:
    def __init__(self, crates, policy=None, models=None, max_depth=12, max_paths=4000, unroll=0):
        self.crates, self.library = crates, {}
        self.bodies, self.keys, self.adts, self.offsets, self.sizes = {}, {}, dict(ENUMS), {}, dict(SIZES)
        for c in crates:
            for b in c.bodies:
                self.bodies.setdefault(b["path"], b)
                self.keys[(c.name, b["key"])] = b
            for b in c.library:
                self.library.setdefault(b["path"], b)
                self.keys.setdefault((c.name, b["key"]), b)
            for a in c.items["adts"]:
                self.adts[a["path"]] = [v["name"] for v in a["variants"]]
                if "size" in a:
                    self.sizes[a["path"]] = a["size"]
                for f, o in zip(a["variants"][0]["fields"] if a["kind"] == "struct" else [], a.get("offsets", [])):
                    self.offsets[(a["path"], f["name"])] = o
        self.policy = policy or (lambda callee, body, stack: True)
        self.models = dict(MODELS)
        self.models.update(models or {})
        self.max_depth, self.max_paths, self.unroll, self.follow = max_depth, max_paths, unroll, 0
        # Whether functions may be entered again while they run: only where the structure they recur on is finite.
        self.recursive = False
        self.paths = 0
        self.analysed = set()
        self._sccs = {}
        self._drops, self.silent = None, frozenset()
        # The types of what closures own.
        self.captures = {}

    # ---- values -------------------------------------------------------------------------------------------------
    def load(self, st, place):
        root, proj = place
        v = st.mem.get(root)
        if v is None:
            v = ("init", root)
        for p in proj:
            v = self.project(st, v, p)
        return v

    def project(self, st, v, p):
        if p[0] == "f":
            return field(v, p[1])
        if p[0] == "idx":
            if v[0] == "rec" and v[2] in ("array", "vec", "seq") and p[1][0] == "int":
                return field(v, p[1][1])
            return ("elem", v, p[1])
        if p[0] in ("eidx", "sub") and v[0] == "rec" and v[1] is None and v[2] in ("array", "vec", "seq"):
            xs = [x for _, x in v[4]]
            if p[0] == "eidx":
                return xs[len(xs) - p[1]]
            xs = xs[p[1][0]:len(xs) - p[1][1] if p[2] else p[1][1]]
            return ("rec", None, v[2], None, tuple((str(i), x) for i, x in enumerate(xs)))
        return ("prj", v, p)

    def store(self, st, place, value):
        root, proj = place
        if not proj:
            st.mem[root] = value
            return
        base = st.mem.get(root)
        if base is None:
            base = ("init", root)
        st.mem[root] = self.update(st, base, proj, value)

    def update(self, st, base, proj, value):
        if not proj:
            return value
        p = proj[0]
        if p[0] == "f":
            return with_field(base, p[1], self.update(st, field(base, p[1]), proj[1:], value))
        return ("upd", base, p, value)

    def deref(self, v):
        """The place a pointer value points to."""
        if v[0] == "ref":
            return v[1]
        if v[0] == "ptradd":
            return (("P", self.pointer(v, 0)), ())
        return (("P", v), ())

    def place(self, st, frame, p):
        root, proj = (("L", frame["id"], p[0]), ())
        for e in p[1:]:
            if e == "*":
                v = self.load(st, (root, proj))
                root, proj = self.deref(v)
            elif e is None or e == "?":
                proj = proj + (("?",),)
            elif "f" in e:
                proj = proj + (("f", str(e.get("n", e["f"])), e.get("adt", "")),)
            elif "as" in e:
                continue
            elif "idx" in e:
                i = self.load(st, (("L", frame["id"], e["idx"]), ()))
                proj = proj + (("idx", i),)
            elif "cidx" in e:
                proj = proj + (("idx", integer(e["cidx"])) if not e.get("end") else ("eidx", e["cidx"]),)
            elif "sub" in e:
                proj = proj + (("sub", tuple(e["sub"]), bool(e.get("end"))),)
            else:
                proj = proj + (("?",),)
        return root, proj

    def operand(self, st, frame, o):
        k = o["o"]
        if k in ("cp", "mv"):
            return self.load(st, self.place(st, frame, o["p"]))
        if k == "fn":
            if frame.get("subst"):
                return self.function(frame, o)
            if "_function" not in o:
                o["_function"] = self.function(frame, o)
            return o["_function"]
        if k == "c":
            if "v" in o:
                return integer(o["v"], self.ty(frame, o["ty"]))
            if "str" in o:
                return ("str", o["str"])
            if "bytes" in o:
                return ("bytes", tuple(o["bytes"]))
            if o.get("promoted") is not None:
                promoted = frame["body"].get("promoted")
                if promoted:
                    body = dict(frame["body"], mir=promoted[o["promoted"]], path=f"{frame['body']['path']}::promoted")
                    body.pop("promoted")
                    traces = [x for x in self.run(body, [], st, (body["path"],)) if x[1] == "return"]
                    self.analysed.discard(body["path"])
                    if len(traces) == 1 and traces[0][0] is st:
                        v = traces[0][2]
                        if v[0] == "ref" and v[1][0][0] == "L" and v[1][0] in st.mem:
                            # What it refers to lives as long as the program.
                            root = ("S", f"{body['path']}[{o['promoted']}]", v[1][0][2])
                            st.mem[root] = st.mem[v[1][0]]
                            v = ("ref", (root, v[1][1]))
                        return v
                return ("promoted", frame["body"]["path"], o["d"])
            ty = self.ty(frame, o["ty"])
            if ty == "()":
                return UNIT
            if o.get("static"):
                return ("ref", (("S", o["static"]), ()))
            if o.get("def"):
                body = self.bodies.get(o["def"])
                if body is not None and body["kind"] in ("Const", "AssocConst") and "mir" in body:
                    traces = self.run(body, [], st, (body["path"],))
                    if len(traces) == 1 and traces[0][0] is st and traces[0][1] == "return":
                        return traces[0][2]
                return ("constant", o["def"], ty)
            return ("constant", o["d"], ty)
        return ("rc",)

    def function(self, frame, o):
        return ("fn", o.get("res") or o["def"], o.get("reskey") or o.get("key"), tuple(self.ty(frame, t) for t in o.get("targs", ())), o["def"],
                tuple(self.ty(frame, t) for t in (o.get("rtargs") if "res" in o else o.get("targs")) or ()))

    def ty(self, frame, i):
        t = frame["crate"].types[i]
        return substitute(t, frame["subst"]) if frame.get("subst") else t

    # ---- addresses ------------------------------------------------------------------------------------------------
    def address(self, v):
        """A pointer as (base pointer term, byte offset); a component that is not a constant offset ends the base."""
        off = 0
        while True:
            if v[0] == "ptradd":
                off += v[2]
                v = v[1]
                continue
            if v[0] == "ref":
                root, proj = v[1]
                while proj and proj[-1][0] == "f" and self.offset(proj[-1]) is not None:
                    off += self.offset(proj[-1])
                    proj = proj[:-1]
                if root[0] == "P" and not proj:
                    v = root[1]
                    continue
                return ("ref", (root, proj)), off
            return v, off

    def offset(self, p):
        return self.offsets.get((p[2], p[1])) if len(p) > 2 else None

    def pointer(self, v, off):
        """The pointer off bytes after v."""
        base, o = self.address(v)
        if o + off == 0:
            return base
        if self.address(v) == (v, 0) and off == 0:
            return v
        return ("ptradd", base, o + off)

    def discriminant(self, st, v):
        if v[0] == "rec" and v[3] is not None:
            names = self.adts.get(v[2])
            if names and v[3] in names:
                return integer(names.index(v[3]))
        if v[0] == "rec" and v[1] is not None and not v[4]:
            return ("discr", v[1])
        return ("discr", v)

    # ---- facts --------------------------------------------------------------------------------------------------
    def interval(self, st, t):
        if t[0] == "int":
            return (t[1], t[1])
        known = st.facts.get(t)
        lo, hi = (-INF, INF) if known is None else known[0]
        if t[0] == "op" and t[1] in ("Add", "AddUnchecked", "Sub", "SubUnchecked"):
            a, b = self.interval(st, t[2]), self.interval(st, t[3])
            l, h = (a[0] + b[0], a[1] + b[1]) if t[1].startswith("Add") else (a[0] - b[1], a[1] - b[0])
            lo, hi = max(lo, l), min(hi, h)
        if t[0] == "op" and t[1] == "BitAnd":
            for x in t[2:]:
                a = self.interval(st, x)
                if a[0] >= 0 and a[1] < INF:
                    lo, hi = max(lo, 0), min(hi, a[1])
        if t[0] == "op" and t[1] == "Rem":
            b = self.interval(st, t[3])
            if b[0] > 0 and self.interval(st, t[2])[0] >= 0:
                lo, hi = max(lo, 0), min(hi, b[1] - 1)
        if t[0] == "un" and t[1] == "Neg":
            a = self.interval(st, t[2])
            lo, hi = max(lo, -a[1]), min(hi, -a[0])
        if t[0] in ("discr",):
            lo = max(lo, 0)
        if t[0] == "len" or (t[0] == "call" and t[2].endswith("::len")):
            lo = max(lo, 0)
        return (lo, hi)

    def excluded(self, st, t):
        known = st.facts.get(t)
        return frozenset() if known is None else known[1]

    def refine(self, st, t, lo=-INF, hi=INF, exclude=()):
        """False when the fact contradicts what is known."""
        if t[0] == "int":
            return lo <= t[1] <= hi and t[1] not in exclude
        l, h = self.interval(st, t)
        l, h = max(l, lo), min(h, hi)
        ex = self.excluded(st, t) | frozenset(exclude)
        while l in ex and l <= h:
            l += 1
        while h in ex and l <= h:
            h -= 1
        if l > h:
            return False
        st.facts[t] = ((l, h), ex)
        if t[0] == "op" and t[1] in ("Add", "Sub") and t[3][0] == "int":
            k = t[3][1] if t[1] == "Add" else -t[3][1]
            return self.refine(st, t[2], l - k, h - k, [e - k for e in exclude])
        if t[0] == "op" and t[1] == "Sub" and t[2][0] == "int":
            k = t[2][1]
            return self.refine(st, t[3], k - h, k - l, [k - e for e in exclude])
        return True

    def decide(self, st, t):
        """True, False or None."""
        if t[0] == "int":
            return bool(t[1])
        lo, hi = self.interval(st, t)
        if lo == hi and lo not in (INF, -INF):
            return bool(lo)
        if t[0] == "un" and t[1] == "Not":
            r = self.decide(st, t[2])
            return None if r is None else not r
        if t[0] == "op":
            op, a, b = t[1], t[2], t[3]
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if op in ("Ne", "Ge", "Gt"):
                    inverse = {"Ne": "Eq", "Ge": "Lt", "Gt": "Le"}[op]
                    r = self.decide(st, ("op", inverse, a, b))
                    return None if r is None else not r
                (la, ha), (lb, hb) = self.interval(st, a), self.interval(st, b)
                if op == "Eq":
                    if a == b and a[0] != "float":
                        return True
                    if ha < lb or hb < la:
                        return False
                    if la == ha == lb == hb and la not in (INF, -INF):
                        return True
                    if la == ha and la in self.excluded(st, b) or lb == hb and lb in self.excluded(st, a):
                        return False
                if op == "Lt":
                    if ha < lb:
                        return True
                    if la >= hb or a == b:
                        return False
                if op == "Le":
                    if ha <= lb or a == b:
                        return True
                    if la > hb:
                        return False
            if op == "BitAnd":
                r, s = self.decide(st, a), self.decide(st, b)
                if r is False or s is False:
                    return False
        return None

    def assume(self, st, t, truth):
        r = self.decide(st, t)
        if r is not None:
            return r == truth
        if not self.refine(st, t, int(truth), int(truth)):
            return False
        if t[0] == "un" and t[1] == "Not":
            return self.assume(st, t[2], not truth)
        if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            op, a, b = t[1], t[2], t[3]
            if not truth:
                op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
            (la, ha), (lb, hb) = self.interval(st, a), self.interval(st, b)
            if op == "Eq":
                return self.refine(st, a, lb, hb) and self.refine(st, b, la, ha)
            if op == "Ne":
                if lb == hb and not self.refine(st, a, exclude=[lb]):
                    return False
                if la == ha and not self.refine(st, b, exclude=[la]):
                    return False
                return True
            if op == "Lt":
                return self.refine(st, a, hi=hb - 1) and self.refine(st, b, lo=la + 1)
            if op == "Le":
                return self.refine(st, a, hi=hb) and self.refine(st, b, lo=la)
            if op == "Gt":
                return self.refine(st, a, lo=lb + 1) and self.refine(st, b, hi=ha - 1)
            if op == "Ge":
                return self.refine(st, a, lo=lb) and self.refine(st, b, hi=ha)
        if t[0] == "op" and t[1] == "BitAnd" and truth:
            return self.assume(st, t[2], True) and self.assume(st, t[3], True)
        if t[0] == "op" and t[1] == "BitOr" and not truth:
            return self.assume(st, t[2], False) and self.assume(st, t[3], False)
        return True

    def variants(self, st, v, adt):
        """Forks a state over the variants of an enum value: (state, variant, first payload)."""
        names = self.adts[adt]
        if v[0] == "rec" and v[3] is not None:
            return [(st, v[3], field(v, "0"))]
        out = []
        for i, n in enumerate(names):
            s = st.copy()
            if self.refine(s, ("discr", v), i, i):
                s.conds = s.conds + ((("discr", v), i, n),)
                out.append((s, n, field(v, "0")))
        return out

    # ---- control flow ------------------------------------------------------------------------------------------
    def sccs(self, body):
        """Loop heads: block -> locals assigned in the loop, or None for 'everything'."""
        key = id(body)
        if key in self._sccs:
            return self._sccs[key]
        blocks = body["mir"]["blocks"]
        succ = [self.successors(b["t"]) for b in blocks]
        heads, state = {}, {}
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        back = []
        while stack:
            n, it = stack[-1]
            for m in it:
                if state.get(m) == 1:
                    back.append((n, m))
                elif m not in state:
                    state[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
            else:
                state[n] = 2
                stack.pop()
        pred = {}
        for i, ss in enumerate(succ):
            for s in ss:
                pred.setdefault(s, []).append(i)
        for n, h in back:
            nodes, work = {h}, [n]
            while work:
                x = work.pop()
                if x not in nodes:
                    nodes.add(x)
                    work += pred.get(x, [])
            assigned = heads.setdefault(h, set())
            for x in nodes:
                for s in blocks[x]["s"]:
                    if "d" in s:
                        assigned.add(written(s["d"]))
                        r = s["r"]
                        if r["k"] in ("ref", "raw") and r.get("mut", True):
                            assigned.add(written(r["p"]))
                    elif "setd" in s:
                        assigned.add((s["setd"][0], None))
                t = blocks[x]["t"]
                if "d" in t:
                    assigned.add(written(t["d"]))
        self._sccs[key] = heads
        return heads

    @staticmethod
    def successors(t):
        k = t["k"]
        if k == "switch":
            return [b for _, b in t["cases"]] + [t["else"]]
        if t.get("to") is not None and k not in ("return",):
            return [t["to"]]
        return []

    def run(self, body, args, st=None, stack=(), targs=()):
        """All abstract traces of a function: a list of (state, outcome, value); outcome is return, panic or loop."""
        st = st or State()
        if "mir" not in body:
            raise Limit(f"no MIR for {body['path']}")
        self.analysed.add(body["path"])
        st.fresh += 1
        frame = {"id": st.fresh, "body": body, "crate": body["crate"],
                 "subst": bindings(body.get("generics", ()), targs)}
        for i, a in enumerate(args):
            st.mem[("L", frame["id"], i + 1)] = a
        out = []
        work = [(st, 0, {})]
        while work:
            st, b, seen = work.pop()
            self.paths += 1
            if self.paths > self.max_paths * 50:
                raise Limit(f"too many paths in {body['path']}")
            heads = self.sccs(body)
            if b in heads:
                visits, known, steps = seen.get(b, (0, None, 0))
                if self.follow and known == len(st.conds) and steps < self.follow:
                    # The loop has gone on without a choice: it is followed for as long as it does.
                    visits -= 1
                if visits > self.unroll:
                    st.event("loop", fn=body["path"], block=b)
                    out.append((st, "loop", None))
                    continue
                seen = {**seen, b: (visits + 1, len(st.conds), steps + 1)}
                for local, projection in sorted(heads[b], key=repr) if visits == self.unroll else ():
                    root = ("L", frame["id"], local)
                    if projection is not None:
                        if root not in st.mem:
                            continue
                        r, proj = self.place(st, frame, [local] + [e if isinstance(e, str) else dict(e) for e in projection])
                        if r in st.mem or r[0] == "P":
                            self.store(st, (r, proj), st.new(f"loop:{body['path']}"))
                    else:
                        old = st.mem.get(root)
                        if old is None:
                            continue
                        # A reference that only moves keeps pointing where it did.
                        if old[0] in ("ref", "fn"):
                            continue
                        st.mem[root] = st.new(f"loop:{body['path']}:{local}")
            block = body["mir"]["blocks"][b]
            for s in block["s"]:
                self.statement(st, frame, s)
            for st2, kind, value in self.terminator(st, frame, block["t"], stack):
                if kind == "goto":
                    work.append((st2, value, seen))
                else:
                    out.append((st2, kind, value))
            if len(out) > self.max_paths:
                raise Limit(f"too many traces in {body['path']}")
        return out

    def statement(self, st, frame, s):
        if "setd" in s:
            return
        place = self.place(st, frame, s["d"])
        value = self.rvalue(st, frame, s["r"], s)
        if place[0][0] == "P":
            st.event("store", place=place, value=value, ln=s["ln"], fn=frame["body"]["path"])
        self.store(st, place, value)

    def rvalue(self, st, frame, r, s):
        k = r["k"]
        if k == "use":
            return self.operand(st, frame, r["a"])
        if k in ("ref", "raw"):
            place = self.place(st, frame, r["p"])
            # A reborrow of everything behind a pointer is that pointer.
            return place[0][1] if place[0][0] == "P" and not place[1] else ("ref", place)
        if k == "cast":
            v = self.operand(st, frame, r["a"])
            c = r["c"]
            if c.startswith("PtrToPtr") or c.startswith("PointerCoercion") or c == "Transmute" or c.startswith("Transmute"):
                if v[0] in ("ref", "fn", "closure"):
                    return v
                return v if c.startswith("P") else ("cast", "Transmute", v, self.ty(frame, r["ty"]))
            ty = self.ty(frame, r["ty"])
            if v[0] == "int" and c == "IntToInt":
                bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(ty)
                if bits:
                    return integer(v[1] % (1 << bits), ty)
                bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(ty)
                if bits:
                    n = v[1] % (1 << bits)
                    return integer(n - (1 << bits) if n >> (bits - 1) else n, ty)
            return ("cast", c, v, ty)
        if k == "bin":
            a, b = self.operand(st, frame, r["a"]), self.operand(st, frame, r["b"])
            return self.binary(st, r["op"], a, b)
        if k == "un":
            a = self.operand(st, frame, r["a"])
            if a[0] == "int" and r["op"] == "Neg":
                return integer(-a[1], a[2])
            if a[0] == "int" and r["op"] == "Not" and a[2] == "bool":
                return integer(1 - a[1], a[2])
            if r["op"] == "PtrMetadata":
                if a[0] == "ref":
                    v = self.load(st, a[1])
                    if v[0] == "rec" and v[1] is None and v[2] in ("vec", "array"):
                        return integer(len(v[4]), "usize")
                    return ("len", v)
                return ("len", ("init", ("P", a)))
            if r["op"] == "Not" and len(s.get("d", ())) == 1:
                # The complement of a number is its negation less one.
                ty = self.ty(frame, frame["body"]["mir"]["locals"][s["d"][0]])
                if ty in ("isize", "i8", "i16", "i32", "i64"):
                    return self.binary(st, "Sub", integer(-1, ty), a)
            return ("un", r["op"], a)
        if k == "discr":
            return self.discriminant(st, self.load(st, self.place(st, frame, r["p"])))
        if k == "agg":
            values = [self.operand(st, frame, a) for a in r["a"]]
            if r["agg"] == "adt":
                names = r["names"] or [str(i) for i in range(len(values))]
                return rec(r["adt"], r["variant"], zip(names, values))
            if r["agg"] == "closure":
                self.captures[(frame["crate"].name, r["key"])] = [self.moved(frame, o) for o in r["a"]]
                return ("closure", r["key"], frame["crate"].name, tuple(values), tuple(sorted(frame["subst"].items())))
            if r["agg"] == "tuple" and not values:
                return UNIT
            return rec(r["agg"], None, [(str(i), v) for i, v in enumerate(values)])
        if k == "repeat":
            return ("repeat", self.operand(st, frame, r["a"]), r["n"])
        return st.new("rvalue")

    def binary(self, st, op, a, b):
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            op = op[:3]
            return rec("tuple", None, [("0", self.binary(st, op, a, b)), ("1", ("overflow", op, a, b))])
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                 "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}.get(op)
            if f:
                return integer(f(), a[2])
            if op in ("Div", "Rem") and x >= 0 and y > 0:
                return integer(x // y if op == "Div" else x % y, a[2])
            if op in ("Shl", "Shr") and x >= 0 and 0 <= y < 64:
                return integer(x << y if op == "Shl" else x >> y, a[2])
            g = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
            if g is not None:
                return integer(int(g), "bool")
        if op in ("Add", "Sub") and b[0] == "int" and b[1] == 0:
            return a
        return ("op", op, a, b)

    def terminator(self, st, frame, t, stack):
        k = t["k"]
        if k == "goto":
            return [(st, "goto", t["to"])]
        if k == "return":
            return [(st, "return", st.mem.get(("L", frame["id"], 0), UNIT))]
        if k == "switch":
            v = self.operand(st, frame, t["a"])
            if v[0] == "int":
                for n, b in t["cases"]:
                    if n == v[1] or (n - (1 << 64)) == v[1]:
                        return [(st, "goto", b)]
                return [(st, "goto", t["else"])]
            out = []
            boolean = len(t["cases"]) == 1 and t["cases"][0][0] == 0 and v[0] in ("op", "un", "call", "overflow", "sym", "fld", "init", "cast", "constant")
            for n, b in t["cases"]:
                s = st.copy()
                if n >= 1 << 63:
                    n -= 1 << 64
                ok = self.assume(s, v, False) if boolean else self.refine(s, v, n, n)
                if ok:
                    s.conds = s.conds + ((v, n, None),)
                    out.append((s, "goto", b))
            s = st.copy()
            excluded = [n - (1 << 64) if n >= 1 << 63 else n for n, _ in t["cases"]]
            if frame["body"]["mir"]["blocks"][t["else"]]["t"]["k"] != "unreachable":
                ok = self.assume(s, v, True) if boolean else self.refine(s, v, exclude=excluded)
                if ok:
                    s.conds = s.conds + ((v, ("not", tuple(excluded)), None),)
                    out.append((s, "goto", t["else"]))
            return out
        if k == "assert":
            v = self.operand(st, frame, t["a"])
            ops = [self.operand(st, frame, o) for o in t["ops"]]
            st.event("assert", msg=t["msg"], op=t.get("op"), ops=ops, cond=v, exp=t["exp"], ln=t["ln"], fn=frame["body"]["path"])
            self.assume(st, v, t["exp"])
            return [(st, "goto", t["to"])]
        if k == "drop":
            place = self.place(st, frame, t["p"])
            for s in self.drop(st, frame, place, self.ty(frame, t["pty"]), t["ln"], stack):
                pass
            return [(s, "goto", t["to"]) for s in self.drop_states]
        if k in ("call", "tailcall"):
            f = self.operand(st, frame, t["f"])
            args = [self.operand(st, frame, a) for a in t["a"]]
            out = []
            for s, kind, value in self.call(st, frame, f, args, t, stack):
                if kind == "return":
                    if t.get("to") is None:
                        out.append((s, "panic", value))
                        continue
                    place = self.place(s, frame, t["d"])
                    if place[0][0] == "P":
                        s.event("store", place=place, value=value, ln=t["ln"], fn=frame["body"]["path"])
                    self.store(s, place, value)
                    out.append((s, "goto", t["to"]))
                else:
                    out.append((s, kind, value))
            return out
        if k == "yield":
            v = self.operand(st, frame, t["a"])
            st.event("yield", value=v, ln=t["ln"], fn=frame["body"]["path"])
            st.mem[("L", frame["id"], t["d"][0])] = st.new("resume")
            return [(st, "goto", t["to"])]
        if k == "unreachable":
            return []
        return [(st, k, None)]

    def drop(self, st, frame, place, ty, ln, stack):
        """Drop glue: the type's own Drop implementation when the fact base has it, else an event."""
        base = ty.split("<")[0]
        if self._drops is None:
            self._drops = {b["self_ty"].split("<")[0]: b for b in self.bodies.values()
                           if b.get("trait") == "core::ops::drop::Drop" and b["path"].endswith("::drop") and b.get("self_ty")}
        found = self._drops.get(base)
        self.drop_states = []
        if found is None and "drop" in self.silent:
            self.drop_states = [st]
            return self.drop_states
        value = self.load(st, place)
        st.event("drop", place=place, value=value, ty=ty, ln=ln, fn=frame["body"]["path"])
        if found is not None and found["path"] not in stack and self.policy(found["path"], found, stack):
            states = []
            for s, kind, _ in self.run(found, [("ref", place)], st, stack + (found["path"],)):
                if kind == "return":
                    states.append(s)
            self.drop_states = states
        else:
            self.drop_states = [st]
        return self.drop_states

    def moved(self, frame, o):
        """The type of a value moved somewhere, when it is one that is destroyed."""
        if o["o"] != "mv" or len(o["p"]) != 1:
            return None
        ty = self.ty(frame, frame["body"]["mir"]["locals"][o["p"][0]])
        return None if ty.startswith(("&", "*", "fn", "extern", "unsafe", "{closure", "(")) or ty in SIZES else ty

    def discard(self, st, frame, f, ln, stack):
        """The states after dropping a function which is not called, along with what it owns."""
        states = [st]
        if f[0] != "closure":
            return states
        for v, ty in zip(f[3], self.captures.get((f[2], f[1]), ())):
            if ty is None:
                continue
            out = []
            for s in states:
                s.fresh += 1
                root = ("D", s.fresh)
                s.mem[root] = v
                out += self.drop(s, frame, (root, ()), ty, ln, stack)
            states = out
        return states

    def enters(self, body, stack):
        return self.recursive or body["path"] not in stack

    def resolve(self, frame, f):
        """The body a function value stands for, with the arguments put in front."""
        if f[0] == "closure":
            return self.keys.get((f[2], f[1]))
        if f[0] == "fn":
            b = None
            if f[2]:
                b = self.keys.get((frame["crate"].name, f[2]))
                if b is not None and b["path"] != f[1]:
                    b = None
            return b or self.bodies.get(f[1])
        return None

    def call(self, st, frame, f, args, t, stack):
        ln = t["ln"]
        name = f[1] if f[0] == "fn" else None
        if f[0] == "ref":
            v = self.load(st, f[1])
            if v[0] in ("closure", "fn"):
                return self.call(st, frame, v, args, t, stack)
        if f[0] == "closure":
            body = self.resolve(frame, f)
            if body is not None and "mir" in body and self.enters(body, stack) and len(stack) < self.max_depth:
                return self.run_closure(st, f, body, args, stack, frame)
        if name is not None:
            for n in (name, f[4]):
                model = self.models.get(n) or self.models.get(strip(n))
                if model is not None:
                    r = model(self, st, frame, f, args, t, stack)
                    if r is not None:
                        return r
            body = self.resolve(frame, f)
            if body is not None and "mir" in body and not body.get("coroutine") and self.enters(body, stack) and len(stack) < self.max_depth and self.policy(name, body, stack):
                return self.run(body, args, st, stack + (body["path"],), f[5] if len(f) > 5 else ())
            body = self.library.get(f[1])
            if body is not None and self.enters(body, stack) and len(stack) < self.max_depth:
                return self.run(body, args, st, stack + (body["path"],), f[5] if len(f) > 5 and f[5] else f[3])
            made = self.constructor(strip(name), args)
            if made is not None:
                return [(st, "return", made)]
        pure = next((strip(n) for n in (name, f[4]) if n and strip(n) in PURE), None) if name is not None else None
        if pure:
            args = [("at", self.load(st, a[1])) if a[0] == "ref" and a[1][0][0] == "L" else a for a in args]
            return [(st, "return", ("pure", pure, tuple(args), f[3]))]
        return self.opaque(st, frame, f, args, t)

    def constructor(self, name, args):
        """The value a variant or structure used as a function makes."""
        adt, _, variant = name.rpartition("::")
        if variant in self.adts.get(adt, ()):
            return rec(adt, variant, [(str(i), a) for i, a in enumerate(args)])
        if variant in self.adts.get(name, ()):
            return rec(name, variant, [(str(i), a) for i, a in enumerate(args)])
        return None

    def run_closure(self, st, f, body, args, stack, frame):
        # Closure bodies take the closure itself first, then the arguments spread out.
        first = body["crate"].types[body["mir"]["locals"][1]] if len(body["mir"]["locals"]) > 1 else ""
        env = rec("closure", None, [(str(i), v) for i, v in enumerate(f[3])])
        if first.startswith("&"):
            root = ("C", st.fresh + 1, f[1])
            st.fresh += 1
            st.mem[root] = env
            env = ("ref", (root, ()))
        subst = dict(f[4])
        return self.run(body, [env] + list(args), st, stack + (body["path"],), tuple(subst.get(g, g) for g in body.get("generics", ())))

    def opaque(self, st, frame, f, args, t):
        name = f[1] if f[0] == "fn" else None
        st.fresh += 1
        result = ("call", st.fresh, name or "<pointer>", tuple(args))
        st.event("call", def_=name, decl=f[4] if f[0] == "fn" else None, f=f, args=args, result=result, ln=t["ln"], fn=frame["body"]["path"], diverges=t.get("to") is None)
        callee_locals = frame["body"]["mir"]["locals"]
        for a, o in zip(args, t["a"]):
            if a[0] == "ref" and o["o"] in ("cp", "mv"):
                ty = frame["crate"].types[callee_locals[o["p"][0]]] if len(o["p"]) == 1 else ""
                if (ty.startswith("&mut") or ty.startswith("*mut") or ty.startswith("core::pin::Pin<&mut")) and not (a[1][0][0] == "S" and "::promoted[" in a[1][0][1]):
                    self.store(st, a[1], ("after", st.fresh, a[1]))
        if t.get("to") is None:
            return [(st, "panic", None)]
        return [(st, "return", result)]

    def apply(self, st, frame, f, args, t, stack):
        """Calls a function value from a model."""
        return self.call(st, frame, f, args, dict(t, a=[{"o": "rc"}] * len(args), to=t.get("to", 0)), stack)


_word = {}


def written(p):
    """A place a loop writes: the local, and the fields behind a pointer in it (None: the local itself)."""
    if "*" not in p[1:]:
        return (p[0], None)
    projection = []
    for e in p[1:]:
        if e == "*" or isinstance(e, dict) and "f" in e:
            projection.append(e if e == "*" else tuple(sorted(e.items())))
        else:
            break
    if "*" not in projection:
        return (p[0], None)
    return (p[0], tuple(projection))


def bindings(generics, targs):
    """What type parameters stand for; anonymous ones of the same name and different types stay open."""
    if len(targs) != len(generics):
        return {}
    return {g: t for g, t in zip(generics, targs) if g != t and all(u == t for h, u in zip(generics, targs) if h == g)}


def substitute(t, subst):
    if not any(g in t for g in subst):
        return t
    return substituted(t, tuple(subst.items()))


@functools.cache
def substituted(t, pairs):
    subst = dict(pairs)
    return re.sub(r"(?<![\w:'])(%s)(?![\w])" % "|".join(map(re.escape, subst)), lambda m: subst[m.group(1)], t)


@functools.cache
def parse_type(t):
    """A printed type as (head, arguments)."""
    t = re.sub(r"'[a-z_]\w*,? ?", "", t.strip())
    if t.startswith("&"):
        return ("&mut" if t.startswith("&mut ") else "&", (parse_type(t[5:] if t.startswith("&mut ") else t[1:]),))
    if t.startswith("(") and t.endswith(")") and not t.startswith("(dyn"):
        parts = split_top(t[1:-1])
        return ("()", tuple(map(parse_type, parts)))
    if t.endswith(">") and "<" in t and not t.startswith("<"):
        i = t.index("<")
        return (t[:i], tuple(map(parse_type, split_top(t[i + 1:-1]))))
    return (t, ())


@functools.cache
def split_top(t):
    out, depth, start = [], 0, 0
    for i, c in enumerate(t):
        if c in "<([":
            depth += 1
        elif c in ")]" or c == ">" and t[i - 1] != "-":
            depth -= 1
        elif c == "," and not depth:
            out.append(t[start:i].strip())
            start = i + 1
    last = t[start:].strip()
    return tuple(out + [last] if last else out)


def unify(pattern, t, generics, bound):
    if pattern[0] in generics and not pattern[1]:
        if pattern[0] in bound:
            return bound[pattern[0]] == t
        bound[pattern[0]] = t
        return True
    return pattern[0] == t[0] and len(pattern[1]) == len(t[1]) and all(unify(p, x, generics, bound) for p, x in zip(pattern[1], t[1]))


def show_type(t):
    if t[0] == "()":
        return "(" + ", ".join(map(show_type, t[1])) + ")"
    if t[0] in ("&", "&mut"):
        return t[0] + (" " if t[0] == "&mut" else "") + show_type(t[1][0])
    return t[0] + ("<" + ", ".join(map(show_type, t[1])) + ">" if t[1] else "")


def implementations(self, trait, self_type, arguments=None):
    """The implementations of a trait for a type in the fact base, most specific first: (body, generic arguments)."""
    found = []
    for body in self.bodies.values():
        if body.get("trait") != trait or not body.get("self_ty"):
            continue
        generics, bound = body.get("generics", ()), {}
        if not unify(parse_type(body["self_ty"]), parse_type(self_type), generics, bound):
            continue
        if arguments is not None:
            theirs = body.get("trait_args", ())[-len(arguments):] if arguments else ()
            if len(theirs) != len(arguments) or not all(unify(parse_type(p), parse_type(a), generics, bound) for p, a in zip(theirs, arguments)):
                continue
        found.append((len(repr(sorted(bound.values()))) if bound else 0, len(bound), body, tuple(show_type(bound[g]) if g in bound else g for g in generics)))
    found.sort(key=lambda x: x[:2])
    return [(b, targs) for _, _, b, targs in found]


PURE = {"core::ptr::const_ptr::<impl *const T>::is_null", "core::ptr::mut_ptr::<impl *mut T>::is_null", "core::ptr::null", "core::ptr::null_mut",
        "core::ptr::non_null::NonNull::dangling", "core::ptr::non_null::NonNull::as_ptr", "core::alloc::layout::Layout::size",
        "core::alloc::layout::Layout::align", "core::alloc::layout::Layout::new", "core::alloc::layout::Layout::array",
        "core::alloc::layout::Layout::extend", "core::alloc::layout::Layout::align_to", "core::alloc::layout::Layout::pad_to_align", "core::alloc::layout::Layout::from_size_align",
        "core::mem::size_of", "core::mem::align_of", "core::str::<impl str>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::as_bytes",
        "core::slice::<impl [T]>::is_empty", "core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min", "core::mem::size_of_val",
        "core::num::<impl usize>::next_multiple_of", "core::num::<impl usize>::div_ceil",
        "core::num::<impl usize>::wrapping_add", "core::num::<impl usize>::wrapping_sub", "core::num::<impl usize>::is_power_of_two"}


@functools.cache
def strip(name):
    """Drops the generic arguments of a path: Option::<T>::map -> Option::map."""
    out, depth, i = [], 0, 0
    while i < len(name):
        c = name[i]
        if name.startswith("::<", i) and not name.startswith("::<impl", i):
            depth += 1
            i += 3
            while depth:
                depth += {"<": 1, ">": -1}.get(name[i], 0) if not name.startswith("->", i - 1) else 0
                i += 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


# ---- models of library functions ----------------------------------------------------------------------------------
MODELS = {}


def model(*names):
    def decorate(f):
        for n in names:
            MODELS[n] = f
        return f
    return decorate


OPTION, RESULT = "core::option::Option", "core::result::Result"


def value_of(self, st, v):
    return self.load(st, v[1]) if v[0] == "ref" else v


@model("core::option::Option::take")
def _(self, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    old = self.load(st, args[0][1])
    self.store(st, args[0][1], NONE)
    return [(st, "return", old)]


@model("core::mem::take")
def _(self, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    old = self.load(st, args[0][1])
    self.store(st, args[0][1], default_of(f[3][0] if f[3] else "") or st.new("default"))
    return [(st, "return", old)]


def default_of(ty):
    base = ty.split("<")[0]
    if base == OPTION:
        return NONE
    if base in ("usize", "isize", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
        return integer(0, base)
    if base == "()":
        return UNIT


@model("core::default::Default::default", "<core::option::Option<T> as core::default::Default>::default")
def _(self, st, frame, f, args, t, stack):
    v = NONE if "Option<T> as" in f[1] else default_of(f[3][0] if f[3] else "")
    return [(st, "return", v)] if v else None


@model("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some")
def _(self, st, frame, f, args, t, stack):
    out = []
    for truth in (True, False):
        s = st.copy()
        if not self.assume(s, args[0], truth):
            continue
        s.conds = s.conds + ((args[0], int(truth), None),)
        if not truth:
            out += [(s2, "return", NONE) for s2 in self.discard(s, frame, args[1], t["ln"], stack)]
        elif strip(f[1]).endswith("then_some"):
            out.append((s, "return", some(args[1])))
        else:
            out += [(s2, k, some(v) if k == "return" else v) for s2, k, v in self.apply(s, frame, args[1], [], t, stack)]
    return out


@model("core::mem::drop")
def _(self, st, frame, f, args, t, stack):
    if not f[3]:
        return None
    st.fresh += 1
    root = ("D", st.fresh)
    st.mem[root] = args[0]
    return [(s, "return", UNIT) for s in self.drop(st, frame, (root, ()), f[3][0], t["ln"], stack)]


@model("core::mem::replace", "core::option::Option::replace")
def _(self, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    old = self.load(st, args[0][1])
    v = args[1] if "mem" in f[1] else some(args[1])
    self.store(st, args[0][1], v)
    return [(st, "return", old)]


def per_variant(adt, handlers):
    def m(self, st, frame, f, args, t, stack):
        out = []
        for s, n, payload in self.variants(st, args[0], adt):
            h = handlers[n]
            out += h(self, s, frame, f, args, t, stack, payload)
        return out
    return m


def returns(make):
    return lambda self, s, frame, f, args, t, stack, p: [(s2, "return", make(args, p)) for s2 in self.discard(s, frame, args[-1], t["ln"], stack)]


def wrapped(make):
    def h(self, s, frame, f, args, t, stack, p):
        out = []
        for s2, kind, v in self.apply(s, frame, args[-1], [p], t, stack):
            out.append((s2, kind, make(v) if kind == "return" else v))
        return out
    return h


def panics(self, s, frame, f, args, t, stack, p):
    s.event("panic", what=f[1], args=args, ln=t["ln"], fn=frame["body"]["path"])
    return [(s, "panic", None)]


def ok(x):
    return rec(RESULT, "Ok", [("0", x)])


def err(x):
    return rec(RESULT, "Err", [("0", x)])


def called0(make):
    def h(self, s, frame, f, args, t, stack, p):
        out = []
        for s2, kind, v in self.apply(s, frame, args[-1], [], t, stack):
            out.append((s2, kind, make(v) if kind == "return" else v))
        return out
    return h


same = lambda v: v
MODELS["core::option::Option::map"] = per_variant(OPTION, {"None": returns(lambda a, p: NONE), "Some": wrapped(some)})
MODELS["core::option::Option::and_then"] = per_variant(OPTION, {"None": returns(lambda a, p: NONE), "Some": wrapped(same)})
MODELS["core::option::Option::unwrap_or"] = per_variant(OPTION, {"None": returns(lambda a, p: a[1]), "Some": returns(lambda a, p: p)})
MODELS["core::option::Option::unwrap_or_else"] = per_variant(OPTION, {"None": called0(same), "Some": returns(lambda a, p: p)})
MODELS["core::option::Option::unwrap"] = per_variant(OPTION, {"None": panics, "Some": returns(lambda a, p: p)})
MODELS["core::option::Option::expect"] = MODELS["core::option::Option::unwrap"]
MODELS["core::option::Option::ok_or"] = per_variant(OPTION, {"None": returns(lambda a, p: err(a[1])), "Some": returns(lambda a, p: ok(p))})
MODELS["core::option::Option::ok_or_else"] = per_variant(OPTION, {"None": called0(err), "Some": returns(lambda a, p: ok(p))})
MODELS["core::result::Result::unwrap"] = per_variant(RESULT, {"Ok": returns(lambda a, p: p), "Err": panics})
MODELS["core::result::Result::expect"] = MODELS["core::result::Result::unwrap"]
MODELS["core::result::Result::map"] = per_variant(RESULT, {"Ok": wrapped(ok), "Err": returns(lambda a, p: err(p))})
MODELS["core::result::Result::map_err"] = per_variant(RESULT, {"Ok": returns(lambda a, p: ok(p)), "Err": wrapped(err)})
MODELS["core::result::Result::and_then"] = per_variant(RESULT, {"Ok": wrapped(same), "Err": returns(lambda a, p: err(p))})
MODELS["core::result::Result::or_else"] = per_variant(RESULT, {"Ok": returns(lambda a, p: ok(p)), "Err": wrapped(same)})
MODELS["core::result::Result::ok"] = per_variant(RESULT, {"Ok": returns(lambda a, p: some(p)), "Err": returns(lambda a, p: NONE)})
MODELS["core::result::Result::err"] = per_variant(RESULT, {"Ok": returns(lambda a, p: NONE), "Err": returns(lambda a, p: some(p))})
MODELS["core::result::Result::unwrap_or_else"] = per_variant(RESULT, {"Ok": returns(lambda a, p: p), "Err": wrapped(same)})
MODELS["core::result::Result::unwrap_or"] = per_variant(RESULT, {"Ok": returns(lambda a, p: p), "Err": returns(lambda a, p: a[1])})


def is_variant(adt, n):
    def m(self, st, frame, f, args, t, stack):
        v = value_of(self, st, args[0]) if args[0][0] == "ref" else ("init", ("P", args[0]))
        d = self.discriminant(st, v)
        i = self.adts[adt].index(n)
        if d[0] == "int":
            return [(st, "return", integer(int(d[1] == i), "bool"))]
        return [(st, "return", ("op", "Eq", d, integer(i)))]
    return m


MODELS["core::option::Option::is_some"] = is_variant(OPTION, "Some")
MODELS["core::option::Option::is_none"] = is_variant(OPTION, "None")
MODELS["core::result::Result::is_ok"] = is_variant(RESULT, "Ok")
MODELS["core::result::Result::is_err"] = is_variant(RESULT, "Err")


@model("core::option::Option::as_ref", "core::option::Option::as_mut", "core::result::Result::as_ref", "core::result::Result::as_mut")
def _(self, st, frame, f, args, t, stack):
    adt = OPTION if "option" in f[1] else RESULT
    if args[0][0] != "ref":
        place = (("P", args[0]), ())
    else:
        place = args[0][1]
    v = self.load(st, place)
    out = []
    for s, n, p in self.variants(st, v, adt):
        if n == "None":
            out.append((s, "return", NONE))
        else:
            out.append((s, "return", rec(adt, n, [("0", ("ref", (place[0], place[1] + (("f", "0", adt),))))])))
    return out


CF = "core::ops::control_flow::ControlFlow"


@model("core::ops::try_trait::Try::branch", "<core::option::Option<T> as core::ops::try_trait::Try>::branch",
       "<core::result::Result<T, E> as core::ops::try_trait::Try>::branch")
def _(self, st, frame, f, args, t, stack):
    adt = OPTION if "Option" in f[1] else RESULT if "Result" in f[1] else None
    if adt is None:
        return None
    out = []
    for s, n, p in self.variants(st, args[0], adt):
        if n in ("Some", "Ok"):
            out.append((s, "return", rec(CF, "Continue", [("0", p)])))
        else:
            out.append((s, "return", rec(CF, "Break", [("0", NONE if n == "None" else err(p))])))
    return out


def residual(self, st, frame, f, args, t, stack):
    v = args[0]
    if v[0] == "rec" and v[3] == "None":
        return [(st, "return", NONE)]
    if v[0] == "rec" and v[3] == "Err":
        e = field(v, "0")
        return [(st, "return", err(("from", e)))]
    return None


MODELS["core::ops::try_trait::FromResidual::from_residual"] = residual
MODELS["<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<core::convert::Infallible>>>::from_residual"] = residual
MODELS["<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<core::convert::Infallible, E>>>::from_residual"] = residual


def into(self, st, frame, f, args, t, stack):
    """Into is the target's From."""
    targs = f[3]
    if len(targs) >= 2 and targs[0].startswith("impl ") and args[0][0] in ("rec", "hole") and args[0][2]:
        targs = (args[0][2],) + targs[1:]
    if len(targs) >= 2:
        if targs[0] == targs[1]:
            return [(st, "return", args[0])]
        if targs[1] == f"core::task::poll::Poll<{targs[0]}>":
            return [(st, "return", rec("core::task::poll::Poll", "Ready", [("0", args[0])]))]
        if targs[1] == f"{OPTION}<{targs[0]}>":
            return [(st, "return", some(args[0]))]
        for body, subst in implementations(self, "core::convert::From", targs[1], targs[:1]):
            if self.enters(body, stack) and len(stack) < self.max_depth and self.policy(body["path"], body, stack):
                return self.run(body, args, st, stack + (body["path"],), subst)
    return None


MODELS["core::convert::Into::into"] = into
MODELS["<T as core::convert::Into<U>>::into"] = into
MODELS["<T as core::convert::From<T>>::from"] = lambda self, st, frame, f, args, t, stack: [(st, "return", args[0])]


@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def _(self, st, frame, f, args, t, stack):
    callee = args[0]
    for _ in range(4):
        if callee[0] == "ref":
            callee = self.load(st, callee[1])
    if args[1][0] == "rec":
        spread = [v for _, v in args[1][4]] if args[1] != UNIT else []
        if callee[0] == "closure" or callee[0] == "fn":
            return self.apply(st, frame, callee, spread, t, stack)
    return None


def panic(self, st, frame, f, args, t, stack):
    st.event("panic", what=f[1], args=args, ln=t["ln"], fn=frame["body"]["path"])
    return [(st, "panic", None)]


for n in ("core::panicking::panic", "core::panicking::panic_fmt", "std::rt::begin_panic", "core::panicking::unreachable_display",
          "core::panicking::panic_display", "core::panicking::panic_explicit", "core::panicking::assert_failed", "core::option::unwrap_failed",
          "core::option::expect_failed", "core::panicking::panic_nounwind", "core::panicking::panic_const::panic_const_add_overflow"):
    MODELS[n] = panic


MANUALLY = "core::mem::manually_drop::ManuallyDrop"


@model(MANUALLY + "::new")
def _(self, st, frame, f, args, t, stack):
    return [(st, "return", rec(MANUALLY, None, [("value", args[0])]))]


@model(MANUALLY + "::into_inner")
def _(self, st, frame, f, args, t, stack):
    return [(st, "return", field(args[0], "value"))]


@model(MANUALLY + "::take")
def _(self, st, frame, f, args, t, stack):
    return [(st, "return", field(self.load(st, self.deref(args[0])), "value"))]


@model(MANUALLY + "::drop")
def _(self, st, frame, f, args, t, stack):
    root, proj = self.deref(args[0])
    place = (root, proj + (("f", "value", MANUALLY),))
    return [(s, "return", UNIT) for s in self.drop(st, frame, place, f[3][0] if f[3] else "?", t["ln"], stack)]


def manually_deref(self, st, frame, f, args, t, stack):
    root, proj = self.deref(args[0])
    return [(st, "return", ("ref", (root, proj + (("f", "value", MANUALLY),))))]


MODELS[f"<{MANUALLY}<T> as core::ops::deref::Deref>::deref"] = manually_deref
MODELS[f"<{MANUALLY}<T> as core::ops::deref::DerefMut>::deref_mut"] = manually_deref


@model("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write")
def _(self, st, frame, f, args, t, stack):
    place = self.deref(args[0])
    st.event("store", place=place, value=args[1], ln=t["ln"], fn=frame["body"]["path"])
    self.store(st, place, args[1])
    return [(st, "return", UNIT)]


@model("core::ptr::read", "core::ptr::mut_ptr::<impl *mut T>::read", "core::ptr::const_ptr::<impl *const T>::read")
def _(self, st, frame, f, args, t, stack):
    return [(st, "return", self.load(st, self.deref(args[0])))]


@model("core::intrinsics::transmute")
def _(self, st, frame, f, args, t, stack):
    return [(st, "return", args[0])]


def moves(sign, scaled=True):
    def m(self, st, frame, f, args, t, stack):
        n = args[1]
        if n[0] != "int":
            return [(st, "return", ("ptrvar", args[0], n if sign > 0 else ("un", "Neg", n), f[3]))]
        size = self.sizes.get(f[3][0]) if scaled else 1
        if size is None:
            return [(st, "return", ("ptrvar", args[0], integer(sign * n[1]), f[3]))]
        return [(st, "return", self.pointer(args[0], sign * n[1] * size))]
    return m


for kind in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
    for prefix in ("", "wrapping_"):
        for n, sign, scaled in (("offset", 1, True), ("add", 1, True), ("sub", -1, True), ("byte_add", 1, False), ("byte_sub", -1, False), ("byte_offset", 1, False)):
            MODELS[f"core::ptr::{kind}::{prefix}{n}"] = moves(sign, scaled)
    for n in ("cast", "cast_mut", "cast_const"):
        MODELS[f"core::ptr::{kind}::{n}"] = lambda self, st, frame, f, args, t, stack: [(st, "return", args[0])]


def is_null(self, st, frame, f, args, t, stack):
    v = args[0]
    if v[0] in ("ref", "ptradd"):
        return [(st, "return", integer(0, "bool"))]
    if v[0] == "pure" and v[1] in ("core::ptr::null", "core::ptr::null_mut"):
        return [(st, "return", integer(1, "bool"))]
    if v[0] == "pure" and "dangling" in v[1]:
        return [(st, "return", integer(0, "bool"))]
    return [(st, "return", ("pure", "is_null", (v,), ()))]


MODELS["core::ptr::const_ptr::<impl *const T>::is_null"] = is_null
MODELS["core::ptr::mut_ptr::<impl *mut T>::is_null"] = is_null


def linear(t):
    """A term as (sum of signed atoms, constant)."""
    if t[0] == "int":
        return (), t[1]
    if t[0] == "op" and t[1] in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
        (a, x), (b, y) = linear(t[2]), linear(t[3])
        sign = 1 if t[1].startswith("Add") else -1
        atoms = {}
        for s, u in a + tuple((sign * s, u) for s, u in b):
            atoms[u] = atoms.get(u, 0) + s
        return tuple(sorted(((s, u) for u, s in atoms.items() if s), key=repr)), x + sign * y
    if t[0] == "un" and t[1] == "Neg":
        a, x = linear(t[2])
        return tuple((-s, u) for s, u in a), -x
    if t[0] == "pure" and t[1].split("::")[-1] in ("wrapping_add", "wrapping_sub"):
        return linear(("op", "Add" if t[1].endswith("add") else "Sub", t[2][0], t[2][1]))
    return ((1, t),), 0


@model("core::alloc::layout::Layout::size")
def _(self, st, frame, f, args, t, stack):
    v = self.load(st, args[0][1]) if args[0][0] == "ref" else args[0]
    if v[0] == "fld" and v[1][0] == "pure" and v[1][1].endswith("Layout::from_size_align") and v[1][2][0][0] == "int":
        return [(st, "return", v[1][2][0])]
    if v[0] == "pure" and v[1].endswith("Layout::new") and v[3] and v[3][0] in self.sizes and f[1].endswith("::size"):
        return [(st, "return", integer(self.sizes[v[3][0]], "usize"))]
    return [(st, "return", ("pure", "core::alloc::layout::Layout::size", (("at", v),), ()))]
