"""Models of iterators, collections, strings and boxes for programs which compute on known structures with unknown leaves.

Iterators are lazy: a closure in a chain of adaptors runs when its element is pulled, as in the program.
"""
from absint import *
import sequences
from sequences import seq

M = {}
BOX = "box"


def on(*names):
    def decorate(f):
        for n in names:
            M[n] = f
        return f
    return decorate


def it(*names):
    return on(*["core::iter::traits::iterator::Iterator::" + n for n in names])


def ret(st, v):
    return [(st, "return", v)]


def unbox(v):
    while v[0] == "rec" and v[1] is None and v[2] == BOX:
        v = v[4][0][1]
    return v


def val(I, st, v):
    """The value behind references."""
    n = 0
    while v[0] == "ref" and n < 12:
        v = I.load(st, v[1])
        n += 1
    return v


def vec(items):
    return seq("vec", items)


def listed(v):
    if v[0] == "rec" and v[1] is None and v[2] in ("vec", "array", "seq", "tuple!"):
        return [x for _, x in v[4]]
    return None


def elements(I, st, v):
    """(place or None, elements) of a vector, array or slice, or of a reference to one."""
    place = None
    n = 0
    while v[0] == "ref" and n < 12:
        place, v = v[1], I.load(st, v[1])
        n += 1
    if v[0] == "rec" and v[1] is None and v[2] == BOX and place is not None:
        place, v = (place[0], place[1] + (("f", "0", BOX),)), v[4][0][1]
    return place, listed(v)


def refs(place, n):
    return [("ref", (place[0], place[1] + (("idx", integer(i)),))) for i in range(n)]


def temporary(st, v):
    """A reference to a value which lives as long as the program."""
    st.fresh += 1
    root = ("S", "temporary", st.fresh)
    st.mem[root] = v
    return ("ref", (root, ()))


# ---- iterators ------------------------------------------------------------------------------------------------------
def iterator(xs):
    return ("iter", "list", tuple(xs))


def as_iterator(I, st, v):
    if v[0] == "iter":
        return v
    if v[0] == "rec" and v[2] == OPTION and v[3] is not None:
        return iterator([field(v, "0")] if v[3] == "Some" else [])
    if v[0] == "rec" and v[2] in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
        a, b = field(v, "start"), field(v, "end")
        if a[0] == "int" and b[0] == "int":
            return iterator([integer(i, a[2]) for i in range(a[1], b[1] + (v[2].endswith("Inclusive")))])
        return None
    xs = listed(v)
    if xs is not None:
        return iterator(xs)
    if v[0] == "rec" and v[1] is None and v[2] in ("hashmap", "hashset"):
        return iterator([x for _, x in v[4]])
    if v[0] == "ref":
        w = I.load(st, v[1])
        if w[0] == "rec" and w[1] is None and w[2] in ("hashmap", "hashset"):
            at = [(v[1][0], v[1][1] + (("f", n, w[2]),)) for n, _ in w[4]]
            if w[2] == "hashset":
                return iterator([("ref", p) for p in at])
            return iterator([tuple_of(*(("ref", (r, q + (("f", str(i), ""),))) for i in (0, 1))) for r, q in at])
        if w[0] == "rec" and w[2] in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
            w = as_iterator(I, st, w)
            if w is None:
                return None
            I.store(st, v[1], w)
        if w[0] == "iter":
            return ("iter", "by_ref", v[1])
        if w[0] == "rec" and w[2] == OPTION and w[3] is not None:
            return iterator([("ref", (v[1][0], v[1][1] + (("f", "0", OPTION),)))] if w[3] == "Some" else [])
        place, xs = elements(I, st, v)
        if xs is not None:
            return iterator(refs(place, len(xs)))
    return None


class Ctx:
    """What a model needs to call closures."""
    def __init__(self, I, frame, t, stack):
        self.I, self.frame, self.t, self.stack = I, frame, t, stack

    def apply(self, st, f, args):
        return self.I.apply(st, self.frame, f, args, self.t, self.stack)


def pull(c, st, it, back=False):
    """Takes one element: (state, kind, None or (element, rest))."""
    kind = it[1]
    I = c.I
    if kind == "repeat":
        return [(st, "return", (it[2], it))]
    if kind == "list":
        xs = it[2]
        if not xs:
            return [(st, "return", None)]
        return [(st, "return", (xs[-1], iterator(xs[:-1])) if back else (xs[0], iterator(xs[1:])))]
    if kind == "by_ref":
        out = []
        for s, k, r in pull(c, st, I.load(st, it[2]), back):
            if k == "return" and r is not None:
                I.store(s, it[2], r[1])
                r = (r[0], it)
            out.append((s, k, r))
        return out
    if kind == "rev":
        return [(s, k, (r[0], ("iter", "rev", r[1])) if k == "return" and r else r) for s, k, r in pull(c, st, it[2], not back)]
    if kind in ("map", "inspect"):
        out = []
        for s, k, r in pull(c, st, it[2], back):
            if k != "return" or r is None:
                out.append((s, k, r))
                continue
            for s2, k2, v in c.apply(s, it[3], [r[0] if kind == "map" else temporary(s, r[0])]):
                out.append((s2, k2, (v if kind == "map" else r[0], ("iter", kind, r[1], it[3])) if k2 == "return" else v))
        return out
    if kind in ("filter", "filter_map", "take_while", "skip_while", "map_while"):
        out, work = [], [(st, it[2])]
        while work:
            s0, sub = work.pop()
            for s, k, r in pull(c, s0, sub, back):
                if k != "return" or r is None:
                    out.append((s, k, r))
                    continue
                arg = r[0] if kind in ("filter_map", "map_while") else temporary(s, r[0])
                for s2, k2, v in c.apply(s, it[3], [arg]):
                    if k2 != "return":
                        out.append((s2, k2, v))
                        continue
                    if kind in ("filter_map", "map_while"):
                        for s3, n, p in I.variants(s2, v, OPTION):
                            if n == "Some":
                                out.append((s3, "return", (p, ("iter", kind, r[1], it[3]))))
                            elif kind == "map_while":
                                out.append((s3, "return", None))
                            else:
                                work.append((s3, r[1]))
                        continue
                    for s3, truth in branches(I, s2, v):
                        if kind == "filter":
                            out.append((s3, "return", (r[0], ("iter", kind, r[1], it[3])))) if truth else work.append((s3, r[1]))
                        elif kind == "take_while":
                            out.append((s3, "return", (r[0], ("iter", kind, r[1], it[3])) if truth else None))
                        elif truth:
                            work.append((s3, r[1]))
                        else:
                            out.append((s3, "return", (r[0], r[1])))
        return out
    if kind == "chain":
        a, b = (it[2], it[3]) if not back else (it[3], it[2])
        out = []
        for s, k, r in pull(c, st, a, back):
            if k != "return" or r is not None:
                out.append((s, k, (r[0], ("iter", "chain", r[1], b) if not back else ("iter", "chain", b, r[1])) if k == "return" else r))
            else:
                out += pull(c, s, b, back)
        return out
    if kind == "flatten":
        out, work = [], [(st, it[2], it[3])]
        while work:
            s0, sub, inner = work.pop()
            if inner is not None:
                for s, k, r in pull(c, s0, inner, back):
                    if k != "return" or r is not None:
                        out.append((s, k, (r[0], ("iter", "flatten", sub, r[1])) if k == "return" else r))
                    else:
                        work.append((s, sub, None))
                continue
            for s, k, r in pull(c, s0, sub, back):
                if k != "return" or r is None:
                    out.append((s, k, r))
                    continue
                i = as_iterator(I, s, r[0])
                if i is None and r[0][0] != "iter":
                    raise Limit(f"flattening {r[0][:2]}")
                work.append((s, r[1], i))
        return out
    if kind == "zip":
        out = []
        for s, k, r in pull(c, st, it[2], back):
            if k != "return" or r is None:
                out.append((s, k, r))
                continue
            for s2, k2, q in pull(c, s, it[3], back):
                out.append((s2, k2, (tuple_of(r[0], q[0]), ("iter", "zip", r[1], q[1])) if k2 == "return" and q is not None else q))
        return out
    if kind == "enumerate":
        return [(s, k, (tuple_of(integer(it[3], "usize"), r[0]), ("iter", "enumerate", r[1], it[3] + 1)) if k == "return" and r else r) for s, k, r in pull(c, st, it[2])]
    if kind == "cloned":
        return [(s, k, (I.load(s, r[0][1]) if r[0][0] == "ref" else r[0], ("iter", "cloned", r[1])) if k == "return" and r else r) for s, k, r in pull(c, st, it[2], back)]
    if kind == "skip":
        if it[3] == 0:
            return pull(c, st, it[2], back)
        out = []
        for s, k, r in pull(c, st, it[2]):
            out += pull(c, s, ("iter", "skip", r[1], it[3] - 1), back) if k == "return" and r is not None else [(s, k, r)]
        return out
    if kind == "take":
        if it[3] == 0:
            return [(st, "return", None)]
        return [(s, k, (r[0], ("iter", "take", r[1], it[3] - 1)) if k == "return" and r else r) for s, k, r in pull(c, st, it[2])]
    if kind == "intersperse":
        # it[4]: None at the start, else the element which follows the next separator
        sub, sep, state = it[2], it[3], it[4]
        if state and state[0] == "next":
            return [(st, "return", (state[1], ("iter", "intersperse", sub, sep, ("started",))))]
        out = []
        for s, k, r in pull(c, st, sub):
            if k != "return" or r is None:
                out.append((s, k, r))
            elif state is None:
                out.append((s, "return", (r[0], ("iter", "intersperse", r[1], sep, ("started",)))))
            else:
                out.append((s, "return", (sep, ("iter", "intersperse", r[1], sep, ("next", r[0])))))
        return out
    if kind == "peekable":
        if it[3] is not None:
            p = it[3]
            return [(st, "return", None if p == ("end",) else (p[1], ("iter", "peekable", it[2], None)))]
        return [(s, k, (r[0], ("iter", "peekable", r[1], None)) if k == "return" and r else r) for s, k, r in pull(c, st, it[2])]
    raise Limit(f"iterator {kind}")


def branches(I, st, v):
    """Forks a state over a condition."""
    r = I.decide(st, v)
    if r is not None:
        return [(st, r)]
    out = []
    for truth in (True, False):
        s = st.copy()
        if I.assume(s, v, truth):
            s.conds = s.conds + ((v, int(truth), None),)
            out.append((s, truth))
    return out


def tuple_of(*xs):
    return rec("tuple", None, [(str(i), x) for i, x in enumerate(xs)])


def drain(c, st, it, limit=60):
    """All elements: (state, kind, list)."""
    out, work = [], [(st, it, ())]
    while work:
        s0, i, xs = work.pop()
        if len(xs) > limit:
            raise Limit("an iterator without an end")
        if i[1] == "list":
            out.append((s0, "return", list(xs + i[2])))
            continue
        for s, k, r in pull(c, s0, i):
            if k != "return":
                out.append((s, k, r))
            elif r is None:
                out.append((s, "return", list(xs)))
            else:
                work.append((s, r[1], xs + (r[0],)))
    return out


def adaptor(kind, *, arg=True):
    def m(I, st, frame, f, args, t, stack):
        i = as_iterator(I, st, args[0])
        if i is None:
            return None
        return ret(st, ("iter", kind, i) + ((args[1],) if arg else ()))
    return m


for n in ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect"):
    it(n)(adaptor(n))
it("rev", "cloned", "copied")
for n, k in (("rev", "rev"), ("cloned", "cloned"), ("copied", "cloned")):
    it(n)(adaptor(k, arg=False))


@on("core::iter::sources::repeat::repeat")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("iter", "repeat", args[0]))


@it("chain", "zip")
def _(I, st, frame, f, args, t, stack):
    a, b = as_iterator(I, st, args[0]), as_iterator(I, st, args[1])
    if a is None or b is None:
        return None
    return ret(st, ("iter", "chain" if f[4].endswith("chain") else "zip", a, b))


@it("flat_map", "flatten")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[0])
    if i is None:
        return None
    return ret(st, ("iter", "flatten", ("iter", "map", i, args[1]) if len(args) > 1 else i, None))


@it("enumerate")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[0])
    return None if i is None else ret(st, ("iter", "enumerate", i, 0))


@it("peekable")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[0])
    return None if i is None else ret(st, ("iter", "peekable", i, None))


@it("skip", "take")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[0])
    if i is None or args[1][0] != "int":
        return None
    return ret(st, ("iter", f[4].split("::")[-1], i, args[1][1]))


@it("by_ref")
def _(I, st, frame, f, args, t, stack):
    return ret(st, args[0])


@on("itertools::Itertools::intersperse", "core::iter::traits::iterator::Iterator::intersperse")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[0])
    return None if i is None else ret(st, ("iter", "intersperse", i, args[1], None))


def consumer(*names):
    def decorate(h):
        def m(I, st, frame, f, args, t, stack):
            i = as_iterator(I, st, args[0])
            if i is None:
                return None
            c = Ctx(I, frame, t, stack)
            out = []
            for s, k, xs in drain(c, st, i):
                out += h(c, s, f, xs, args) if k == "return" else [(s, k, xs)]
            return out
        for n in names:
            M[n if "::" in n else "core::iter::traits::iterator::Iterator::" + n] = m
        return m
    return decorate


def step(c, states, f, argument):
    """Applies f once per state: states are (state, kind, value)."""
    out = []
    for s, k, v in states:
        out += c.apply(s, f, argument(s, v)) if k == "return" else [(s, k, v)]
    return out


def result_type(c, f):
    """What a collection is collected into."""
    return c.I.ty(c.frame, 0) if False else (f[3][-1] if f[3] else "")


@consumer("collect", "core::iter::traits::collect::FromIterator::from_iter", "itertools::Itertools::collect_vec")
def _(c, st, f, xs, args):
    ty = f[3][-1] if f[4].endswith("collect") and f[3] else (f[3][0] if f[3] else "")
    head = ty.split("<")[0]
    if head == "alloc::string::String":
        return ret(st, concat([val(c.I, st, x) for x in xs]))
    if head in ("core::option::Option", "core::result::Result"):
        out, work = [], [(st, list(xs), [])]
        bad = "None" if head.endswith("Option") else "Err"
        while work:
            s, rest, done = work.pop()
            if not rest:
                out.append((s, "return", some(vec(done)) if bad == "None" else rec(RESULT, "Ok", [("0", vec(done))])))
                continue
            for s2, n, p in c.I.variants(s, rest[0], head):
                if n == bad:
                    out.append((s2, "return", NONE if bad == "None" else rec(RESULT, "Err", [("0", p)])))
                else:
                    work.append((s2, rest[1:], done + [p]))
        return out
    if "HashSet" in head or "HashMap" in head or "BTree" in head or "IndexMap" in head or "VecDeque" not in head and "Vec" not in head and head and "[" not in head and head not in ("I", "B") and not head.startswith("alloc::sync") and not head.startswith("alloc::rc") and not head.startswith("alloc::boxed"):
        st.fresh += 1
        return ret(st, ("set", st.fresh, head, tuple(xs)))
    return ret(st, vec(xs))


@consumer("count", "core::iter::traits::exact_size::ExactSizeIterator::len")
def _(c, st, f, xs, args):
    return ret(st, integer(len(xs), "usize"))


@consumer("last")
def _(c, st, f, xs, args):
    return ret(st, some(xs[-1]) if xs else NONE)


@consumer("sum")
def _(c, st, f, xs, args):
    total = integer(0, "usize")
    for x in xs:
        total = c.I.binary(st, "Add", total, val(c.I, st, x))
    return ret(st, total)


@consumer("fold")
def _(c, st, f, xs, args):
    states = [(st, "return", args[1])]
    for x in xs:
        states = step(c, states, args[2], lambda s, v: [v, x])
    return states


@consumer("core::iter::traits::double_ended::DoubleEndedIterator::rfold")
def _(c, st, f, xs, args):
    states = [(st, "return", args[1])]
    for x in xs[::-1]:
        states = step(c, states, args[2], lambda s, v: [v, x])
    return states


@consumer("for_each")
def _(c, st, f, xs, args):
    states = [(st, "return", UNIT)]
    for x in xs:
        states = step(c, states, args[1], lambda s, v: [x])
    return [(s, k, UNIT if k == "return" else v) for s, k, v in states]


@consumer("reduce")
def _(c, st, f, xs, args):
    if not xs:
        return ret(st, NONE)
    states = [(st, "return", xs[0])]
    for x in xs[1:]:
        states = step(c, states, args[1], lambda s, v: [v, x])
    return [(s, k, some(v) if k == "return" else v) for s, k, v in states]


@consumer("try_fold")
def _(c, st, f, xs, args):
    out, work = [], [(st, args[1], list(xs), None)]
    while work:
        s, acc, rest, whole = work.pop()
        if not rest:
            out.append((s, "return", whole if whole is not None else wrap_try(f, acc)))
            continue
        for s2, k, v in c.apply(s, args[2], [acc, rest[0]]):
            if k != "return":
                out.append((s2, k, v))
                continue
            adt = v[2] if v[0] == "rec" else (f[3][-1].split("<")[0] if f[3] else RESULT)
            for s3, n, p in c.I.variants(s2, v, adt):
                if n in ("Some", "Ok", "Continue"):
                    work.append((s3, p, rest[1:], rec(adt, n, [("0", p)])))
                else:
                    out.append((s3, "return", rec(adt, n, [("0", p)] if n != "None" else [])))
    return out


def wrap_try(f, acc):
    head = (f[3][-1] if f[3] else "").split("<")[0]
    return some(acc) if head == OPTION else rec(RESULT, "Ok", [("0", acc)])


@consumer("partition")
def _(c, st, f, xs, args):
    out, work = [], [(st, list(xs), [], [])]
    while work:
        s, rest, a, b = work.pop()
        if not rest:
            out.append((s, "return", tuple_of(vec(a), vec(b))))
            continue
        for s2, k, v in c.apply(s, args[1], [temporary(s, rest[0])]):
            if k != "return":
                out.append((s2, k, v))
                continue
            for s3, truth in branches(c.I, s2, v):
                work.append((s3, rest[1:], a + [rest[0]] if truth else a, b if truth else b + [rest[0]]))
    return out


@consumer("itertools::Itertools::sorted_by_key", "itertools::Itertools::sorted", "itertools::Itertools::sorted_by", "itertools::Itertools::sorted_unstable")
def _(c, st, f, xs, args):
    st.event("sorted", fn=c.frame["body"]["path"], ln=c.t["ln"], items=list(xs))
    return ret(st, iterator(xs))


def searcher(name, found, missing, by_ref=False, reverse=False, index=False):
    """any, all, find, position: the elements in turn, until the closure decides."""
    def m(I, st, frame, f, args, t, stack):
        i = as_iterator(I, st, args[0])
        if i is None:
            return None
        c = Ctx(I, frame, t, stack)
        back = name.startswith("r") and name != "rev"
        out, work = [], [(st, i, 0)]
        place = args[0][1] if args[0][0] == "ref" and I.load(st, args[0][1])[0] == "iter" else None
        length = None
        if index and back:
            j = I.load(st, i[2]) if i[1] == "by_ref" else i
            if j[1] != "list":
                return None
            length = len(j[2])
        while work:
            s0, sub, n = work.pop()
            for s, k, r in pull(c, s0, sub, back):
                if k != "return":
                    out.append((s, k, r))
                elif r is None:
                    out.append((s, "return", missing))
                else:
                    arg = temporary(s, r[0]) if by_ref else r[0]
                    for s2, k2, v in c.apply(s, args[1], [arg]):
                        if k2 != "return":
                            out.append((s2, k2, v))
                            continue
                        if name == "find_map":
                            for s3, m_, p in I.variants(s2, v, OPTION):
                                out.append((s3, "return", some(p))) if m_ == "Some" else work.append((s3, r[1], n + 1))
                            continue
                        for s3, truth in branches(I, s2, v):
                            if truth == (name != "all"):
                                out.append((s3, "return", found(r[0], length - 1 - n if length is not None else n)))
                            else:
                                work.append((s3, r[1], n + 1))
        return out
    M["core::iter::traits::iterator::Iterator::" + name] = m
    M["core::iter::traits::double_ended::DoubleEndedIterator::" + name] = m


searcher("any", lambda x, n: integer(1, "bool"), integer(0, "bool"))
searcher("all", lambda x, n: integer(0, "bool"), integer(1, "bool"))
searcher("find", lambda x, n: some(x), NONE, by_ref=True)
searcher("rfind", lambda x, n: some(x), NONE, by_ref=True)
searcher("find_map", lambda x, n: some(x), NONE)
searcher("position", lambda x, n: some(integer(n, "usize")), NONE)
searcher("rposition", lambda x, n: some(integer(n, "usize")), NONE, index=True)


def next_model(back):
    def m(I, st, frame, f, args, t, stack):
        if args[0][0] != "ref":
            return None
        v = I.load(st, args[0][1])
        i = v if v[0] == "iter" else as_iterator(I, st, v) if v[0] == "rec" and v[2] != "vec" else None
        if i is None:
            return None
        out = []
        for s, k, r in pull(Ctx(I, frame, t, stack), st, i, back):
            if k != "return":
                out.append((s, k, r))
            elif r is None:
                I.store(s, args[0][1], iterator([]))
                out.append((s, "return", NONE))
            else:
                I.store(s, args[0][1], r[1])
                out.append((s, "return", some(r[0])))
        return out
    return m


it("next")(next_model(False))
on("core::iter::traits::double_ended::DoubleEndedIterator::next_back")(next_model(True))


@on("core::iter::adapters::peekable::Peekable::peek")
def _(I, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    i = I.load(st, args[0][1])
    if i[0] != "iter" or i[1] != "peekable":
        return None
    out = []
    for s, k, r in pull(Ctx(I, frame, t, stack), st, i):
        if k != "return":
            out.append((s, k, r))
        elif r is None:
            out.append((s, "return", NONE))
        else:
            I.store(s, args[0][1], ("iter", "peekable", r[1][2], ("at", r[0])))
            out.append((s, "return", some(temporary(s, r[0]))))
    return out


@it("nth")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[0])
    if i is None or args[1][0] != "int":
        return None
    out = []
    for s, k, xs in drain(Ctx(I, frame, t, stack), st, i):
        out.append((s, k, (some(xs[args[1][1]]) if args[1][1] < len(xs) else NONE) if k == "return" else xs))
    return out


@on("core::iter::traits::collect::IntoIterator::into_iter", "<I as core::iter::traits::collect::IntoIterator>::into_iter", "core::slice::<impl [T]>::iter",
    "alloc::collections::vec_deque::VecDeque::iter", "core::slice::<impl [T]>::iter_mut", "core::option::Option::iter")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[0])
    return None if i is None else ret(st, i)


@on("core::iter::sources::once::once")
def _(I, st, frame, f, args, t, stack):
    return ret(st, iterator([args[0]]))


@on("core::iter::sources::empty::empty")
def _(I, st, frame, f, args, t, stack):
    return ret(st, iterator([]))


# ---- collections ----------------------------------------------------------------------------------------------------
@on("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::collections::vec_deque::VecDeque::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, vec([]))


@on("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    if xs is None:
        return None
    I.store(st, place, vec(xs + [args[1]]))
    return ret(st, UNIT)


@on("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_back", "alloc::collections::vec_deque::VecDeque::pop_front")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    if xs is None:
        return None
    front = f[1].endswith("front")
    I.store(st, place, vec(xs[1:] if front else xs[:-1]))
    return ret(st, some(xs[0 if front else -1]) if xs else NONE)


@on("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    i = as_iterator(I, st, args[1])
    if xs is None or i is None:
        return None
    out = []
    for s, k, ys in drain(Ctx(I, frame, t, stack), st, i):
        if k == "return":
            ys = [I.load(s, y[1]) if y[0] == "ref" and "from_slice" in f[1] else y for y in ys]
            I.store(s, place, vec(xs + ys))
        out.append((s, k, UNIT if k == "return" else ys))
    return out


def sized(make):
    def m(I, st, frame, f, args, t, stack):
        v = val(I, st, args[0])
        if v[0] == "str":
            return ret(st, make(len(v[1].encode())))
        place, xs = elements(I, st, args[0])
        if xs is None and v[0] in ("text", "lex"):
            return ret(st, ("pure", "len", (v,), ())) if make(0)[2] == "usize" else ret(st, ("op", "Eq", ("pure", "len", (v,), ()), integer(0, "usize")))
        return None if xs is None else ret(st, make(len(xs)))
    return m


for n in ("alloc::vec::Vec", "core::slice::<impl [T]>", "alloc::collections::vec_deque::VecDeque", "core::str::<impl str>", "alloc::string::String"):
    M[n + "::len"] = sized(lambda n: integer(n, "usize"))
    M[n + "::is_empty"] = sized(lambda n: integer(int(n == 0), "bool"))


@on("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "alloc::collections::vec_deque::VecDeque::front", "alloc::collections::vec_deque::VecDeque::back")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    if xs is None:
        return None
    end = f[1].endswith("last") or f[1].endswith("back")
    return ret(st, some(refs(place, len(xs))[-1 if end else 0]) if xs else NONE)


@on("core::slice::<impl [T]>::get")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    if xs is None or args[1][0] != "int":
        return None
    return ret(st, some(refs(place, len(xs))[args[1][1]]) if args[1][1] < len(xs) else NONE)


@on("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    if xs is None:
        return None
    if not xs:
        return ret(st, NONE)
    if f[1].endswith("first"):
        return ret(st, some(tuple_of(refs(place, len(xs))[0], temporary(st, vec(xs[1:])))))
    return ret(st, some(tuple_of(refs(place, len(xs))[-1], temporary(st, vec(xs[:-1])))))


@on("core::slice::<impl [T]>::split_at")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    if xs is None or args[1][0] != "int":
        return None
    n = args[1][1]
    if n > len(xs):
        st.event("panic", what=f[1], args=args, ln=t["ln"], fn=frame["body"]["path"])
        return [(st, "panic", None)]
    return ret(st, tuple_of(temporary(st, vec(xs[:n])), temporary(st, vec(xs[n:]))))


def range_of(r, n):
    """The bounds of a range value over a sequence of a known length."""
    if r[0] != "rec":
        return None
    lo, hi = field(r, "start"), field(r, "end")
    kind = r[2].split("::")[-1]
    a = 0 if kind in ("RangeTo", "RangeFull", "RangeToInclusive") else lo[1] if lo[0] == "int" else None
    b = n if kind in ("RangeFrom", "RangeFull") else hi[1] if hi[0] == "int" else None
    if kind.endswith("Inclusive") and b is not None:
        b += 1
    return None if a is None or b is None else (a, b)


@on("core::ops::index::Index::index", "core::slice::<impl [T]>::index")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    v = val(I, st, args[0])
    if xs is None and v[0] == "str":
        r = range_of(args[1], len(v[1].encode()))
        if r is None:
            return None
        return ret(st, ("str", v[1].encode()[r[0]:r[1]].decode()))
    if xs is None:
        return None
    if args[1][0] == "int":
        if args[1][1] >= len(xs):
            st.event("panic", what=f[1], args=args, ln=t["ln"], fn=frame["body"]["path"])
            return [(st, "panic", None)]
        return ret(st, refs(place, len(xs))[args[1][1]])
    r = range_of(args[1], len(xs))
    if r is None:
        return None
    if not 0 <= r[0] <= r[1] <= len(xs):
        st.event("panic", what=f[1], args=args, ln=t["ln"], fn=frame["body"]["path"])
        return [(st, "panic", None)]
    return ret(st, args[0] if r == (0, len(xs)) else temporary(st, vec(xs[r[0]:r[1]])))


@on("alloc::vec::Vec::drain", "alloc::collections::vec_deque::VecDeque::drain")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    r = None if xs is None else range_of(args[1], len(xs))
    if r is None:
        return None
    I.store(st, place, vec(xs[:r[0]] + xs[r[1]:]))
    return ret(st, iterator(xs[r[0]:r[1]]))


@on("alloc::collections::vec_deque::VecDeque::range")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    r = None if xs is None else range_of(args[1], len(xs))
    return None if r is None else ret(st, iterator(refs(place, len(xs))[r[0]:r[1]]))


@on("alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::into_vec", "alloc::borrow::ToOwned::to_owned", "alloc::vec::Vec::into_boxed_slice")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    if listed(v) is not None:
        return ret(st, vec(listed(v)))
    return ret(st, v) if v[0] in ("str", "text", "lex") else None


@on("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(I, st, frame, f, args, t, stack):
    return sequences.from_box(I, st, frame, f, args, t, stack)


@on("<alloc::vec::Vec<T> as core::convert::From<[T; N]>>::from", "<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return None if listed(v) is None else ret(st, vec(listed(v)))


@on("core::slice::<impl [T]>::contains")
def _(I, st, frame, f, args, t, stack):
    place, xs = elements(I, st, args[0])
    if xs is None:
        return None
    x = val(I, st, args[1])
    rs = [equal(val(I, st, y), x) for y in xs]
    if True in rs:
        return ret(st, integer(1, "bool"))
    if None not in rs:
        return ret(st, integer(0, "bool"))
    return ret(st, ("member", x, tuple(val(I, st, y) for y in xs)))


def join(separator):
    def m(I, st, frame, f, args, t, stack):
        place, xs = elements(I, st, args[0])
        if xs is None:
            return None
        sep = val(I, st, args[1]) if separator else ("str", "")
        parts = []
        for i, x in enumerate(xs):
            x = val(I, st, x)
            if listed(x) is not None:
                return ret(st, vec([y for z in xs for y in listed(val(I, st, z)) or []])) if not separator else None
            parts += ([sep] if i and separator else []) + [x]
        return ret(st, concat(parts))
    return m


M["alloc::slice::<impl [T]>::concat"] = join(False)
M["alloc::slice::<impl [T]>::join"] = join(True)
M["itertools::Itertools::join"] = None
del M["itertools::Itertools::join"]


# ---- strings --------------------------------------------------------------------------------------------------------
def parts_of(v):
    if v[0] == "text":
        return list(v[1])
    if v[0] == "int":
        return [("str", chr(v[1]))]
    return [v]


def concat(vs):
    """A text made of parts: strings, characters and unknown pieces."""
    out = []
    for v in vs:
        for p in parts_of(v):
            if p[0] == "rec" and p[2] == "vec":
                p = concat(listed(p))
                for q in parts_of(p):
                    add(out, q)
                continue
            add(out, p)
    out = [p for p in out if p != ("str", "")] or [("str", "")]
    return out[0] if len(out) == 1 else ("text", tuple(out))


def add(out, p):
    if p[0] == "str" and out and out[-1][0] == "str":
        out[-1] = ("str", out[-1][1] + p[1])
    else:
        out.append(p)


def equal(a, b):
    """Whether two known values are equal; None when undecided."""
    a, b = unbox(a), unbox(b)
    if a == b:
        return True
    if a[0] == "int" and b[0] == "int":
        return a[1] == b[1]
    if a[0] == "str" and b[0] == "str":
        return a[1] == b[1]
    if a[0] == "rec" and b[0] == "rec" and a[1] is None and b[1] is None:
        if a[2] in ("vec", "array", "seq") and b[2] in ("vec", "array", "seq") and len(a[4]) != len(b[4]):
            return False
        if a[3] != b[3]:
            return False
        rs = [equal(x, dict(b[4]).get(n, UNIT)) for n, x in a[4]]
        return False if False in rs else None if None in rs else True
    return None


def equality(negated):
    def m(I, st, frame, f, args, t, stack):
        a, b = (deep(I, st, x) for x in args)
        r = equal(a, b)
        if r is None:
            if any(x[0] in ("sym", "call", "init", "fld", "pure", "op", "cast", "len", "overflow") for x in (a, b)):
                return ret(st, ("op", "Ne" if negated else "Eq", a, b))
            if a[0] in ("str", "text", "lex", "rec"):
                return ret(st, ("op", "Ne" if negated else "Eq", a, b))
        return None if r is None else ret(st, integer(int(r != negated), "bool"))
    return m


def deep(I, st, v, n=8):
    """A value with the references in it replaced by what they refer to."""
    v = unbox(val(I, st, v))
    if v[0] == "rec" and n:
        return ("rec", v[1], v[2], v[3], tuple((k, deep(I, st, x, n - 1)) for k, x in v[4]))
    return v


M["core::cmp::PartialEq::eq"] = equality(False)
M["core::cmp::PartialEq::ne"] = equality(True)


def identity(I, st, frame, f, args, t, stack):
    return ret(st, args[0])


def loads(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return ret(st, v) if v[0] in ("str", "text", "lex", "pure", "iter") or listed(v) is not None else None


for n in ("alloc::string::String::as_str", "core::convert::AsRef::as_ref", "alloc::string::ToString::to_string", "alloc::str::<impl str>::to_owned",
          "<str as alloc::string::ToString>::to_string", "<alloc::string::String as core::convert::From<&str>>::from", "alloc::string::String::into_boxed_str",
          "core::borrow::Borrow::borrow", "alloc::string::String::from_utf8_lossy", "alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes"):
    M[n] = loads


@on("core::clone::Clone::clone")
def _(I, st, frame, f, args, t, stack):
    if args[0][0] in ("ref",):
        return ret(st, I.load(st, args[0][1]))
    return None


# ---- formatted text -------------------------------------------------------------------------------------------------
for n in ("display", "debug", "lower_hex", "upper_hex"):
    @on(f"core::fmt::rt::Argument::new_{n}")
    def _(I, st, frame, f, args, t, stack):
        return ret(st, ("formatted", strip(f[1]).rpartition("new_")[2], args[0]))


@on("core::fmt::Arguments::new")
def _(I, st, frame, f, args, t, stack):
    _, xs = elements(I, st, args[1])
    if args[0][0] != "bytes" or xs is None or any(x[0] != "formatted" for x in xs):
        return None
    bs, out, i, n = args[0][1], [], 0, 0
    while bs[i]:
        b = bs[i]
        i += 1
        if b < 0x80 or b == 0x80:
            if b == 0x80:
                b = bs[i] + 256 * bs[i + 1]
                i += 2
            out.append(("str", bytes(bs[i:i + b]).decode()))
            i += b
        elif b == 0xc0:
            out.append(xs[n])
            n += 1
        elif b == 0xc8:
            n = bs[i] + 256 * bs[i + 1]
            i += 2
            out.append(xs[n])
            n += 1
        elif b & 0xc0 == 0xc0 and not b & 0x30:
            # Flags, a width, a precision and a number of an argument may follow.
            options = []
            for bit, name, size in ((1, "flags", 4), (2, "width", 2), (4, "precision", 2), (8, "argument", 2)):
                if b & bit:
                    options.append((name, int.from_bytes(bytes(bs[i:i + size]), "little")))
                    i += size
            n = dict(options).get("argument", n)
            out.append(xs[n] + (tuple(o for o in options if o[0] != "argument"),))
            n += 1
        else:
            return None
    return ret(st, ("arguments", tuple(out)))


@on("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("arguments", (args[0],))) if args[0][0] == "str" else None


def display(c, st, how, v):
    """A value as text: (state, kind, text), or None."""
    I = c.I
    v = unbox(val(I, st, v))
    if v[0] in ("str", "text", "lex") and how == "display":
        return [(st, "return", v)]
    if v[0] == "int" and how == "display":
        return [(st, "return", ("str", chr(v[1]) if v[2] == "char" else str(v[1])))]
    if v[0] == "arguments":
        return render(c, st, v)
    if v[0] == "rec" and v[1] is None or v[0] == "rec" and v[2] != "vec":
        body = I.bodies.get(f"<{v[2]} as core::fmt::{how.capitalize()}>::fmt")
        if body is None:
            return None
        out = []
        formatter = temporary(st, ("str", ""))
        for s, k, r in I.run(body, [temporary(st, v), formatter], st, c.stack + (body["path"],)):
            out.append((s, k, I.load(s, formatter[1]) if k == "return" else r))
        return out
    return None


def render(c, st, arguments):
    done = [(st, "return", [])]
    for p in arguments[1]:
        following = []
        for s, k, vs in done:
            if k != "return":
                following.append((s, k, vs))
                continue
            if p[0] == "formatted" and len(p) > 3:
                return None
            r = display(c, s, p[1], p[2]) if p[0] == "formatted" else [(s, "return", p)]
            if r is None:
                return None
            following += [(s2, k2, vs + [v] if k2 == "return" else v) for s2, k2, v in r]
        done = following
    return [(s, k, concat(vs) if k == "return" else vs) for s, k, vs in done]


@on("alloc::fmt::format")
def _(I, st, frame, f, args, t, stack):
    return render(Ctx(I, frame, t, stack), st, args[0]) if args[0][0] == "arguments" else None


@on("core::hint::must_use")
def _(I, st, frame, f, args, t, stack):
    return ret(st, args[0])


@on("core::fmt::Formatter::write_fmt", "core::fmt::Formatter::write_str", "core::fmt::Write::write_str", "core::fmt::Write::write_fmt")
def _(I, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    r = render(Ctx(I, frame, t, stack), st, args[1]) if args[1][0] == "arguments" else [(st, "return", val(I, st, args[1]))]
    if r is None:
        return None
    out = []
    for s, k, v in r:
        if k == "return":
            old = I.load(s, args[0][1])
            if old[0] not in ("str", "text", "lex"):
                return None
            I.store(s, args[0][1], concat([old, v]))
            v = ok(UNIT)
        out.append((s, k, v))
    return out


@on("core::iter::sources::repeat_n::repeat_n", "core::iter::repeat_n")
def _(I, st, frame, f, args, t, stack):
    return ret(st, iterator([args[0]] * args[1][1])) if args[1][0] == "int" else None


CHARACTERS = {"is_ascii_uppercase": lambda c: c.isascii() and c.isupper(), "is_uppercase": str.isupper, "is_ascii_lowercase": lambda c: c.isascii() and c.islower(),
              "is_lowercase": str.islower, "is_alphabetic": str.isalpha, "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(),
              "is_ascii_digit": lambda c: c in "0123456789", "is_numeric": str.isnumeric, "is_alphanumeric": str.isalnum, "is_whitespace": str.isspace}
for n in CHARACTERS:
    @on(f"core::char::methods::<impl char>::{n}")
    def _(I, st, frame, f, args, t, stack):
        v = val(I, st, args[0])
        return ret(st, integer(int(CHARACTERS[f[1].rpartition("::")[2]](chr(v[1]))), "bool")) if v[0] == "int" else None


def literals(name, function):
    """Functions of texts which are decided when the texts are known."""
    @on(f"core::str::<impl str>::{name}", f"alloc::str::<impl str>::{name}", f"alloc::string::String::{name}")
    def _(I, st, frame, f, args, t, stack):
        vs = [val(I, st, a) for a in args]
        if any(v[0] not in ("str", "int") for v in vs):
            return None
        r = function(*[v[1] if v[0] == "str" else chr(v[1]) if v[2] == "char" else v[1] for v in vs])
        if r is None:
            return None
        return ret(st, ("str", r) if isinstance(r, str) else r)


def optional(r):
    return NONE if r is None else some(("str", r) if isinstance(r, str) else r)


def texts_of(rs):
    return iterator([("str", r) for r in rs])


def at_byte(n):
    return None if n is None or n < 0 else integer(n, "usize")


literals("replace", lambda s, a, b: s.replace(a, b) if isinstance(a, str) else None)
literals("strip_prefix", lambda s, a: optional(s[len(a):] if s.startswith(a) else None))
literals("strip_suffix", lambda s, a: optional(s[:len(s) - len(a)] if s.endswith(a) else None))
literals("split", lambda s, a: texts_of(s.split(a)) if a else None)
literals("lines", lambda s: texts_of([l[:-1] if l.endswith("\r") else l for l in (s[:-1] if s.endswith("\n") else s).split("\n")] if s else []))
literals("split_whitespace", lambda s: texts_of(s.split()))
literals("repeat", lambda s, n: s * n)
literals("to_uppercase", str.upper)
literals("to_lowercase", str.lower)
literals("find", lambda s, a: optional(at_byte(len(s[:s.find(a)].encode()) if a in s else None)))
literals("rfind", lambda s, a: optional(at_byte(len(s[:s.rfind(a)].encode()) if a in s else None)))
literals("eq_ignore_ascii_case", lambda s, a: integer(int(s.lower() == a.lower()), "bool"))


@on("alloc::string::String::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("str", ""))


@on("core::str::<impl str>::chars")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return ret(st, iterator([integer(ord(c), "char") for c in v[1]])) if v[0] == "str" else None


@on("core::str::<impl str>::bytes")
def _(I, st, frame, f, args, t, stack):
    v = val(I, st, args[0])
    return ret(st, iterator([integer(c, "u8") for c in v[1].encode()])) if v[0] == "str" else None


@on("core::str::<impl str>::contains", "core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with")
def _(I, st, frame, f, args, t, stack):
    v, p = val(I, st, args[0]), val(I, st, args[1])
    p = chr(p[1]) if p[0] == "int" else p[1] if p[0] == "str" else None
    if v[0] != "str" or p is None:
        return ret(st, ("pure", f[1].split("::")[-1], (v, val(I, st, args[1])), ()))
    return ret(st, integer(int({"contains": p in v[1], "starts_with": v[1].startswith(p), "ends_with": v[1].endswith(p)}[f[1].split("::")[-1]]), "bool"))


def case(name):
    def m(I, st, frame, f, args, t, stack):
        v = val(I, st, args[0])
        if v[0] == "str":
            return ret(st, ("str", getattr(v[1], name[3:])()))
        while v[0] == "pure" and v[1] in ("to_lower", "to_upper"):
            v = v[2][0]
        return ret(st, ("pure", name, (v,), ()))
    return m


for n in ("", "_ascii"):
    pass
M["alloc::str::<impl str>::to_lowercase"] = M["alloc::str::<impl str>::to_ascii_lowercase"] = case("to_lower")
M["alloc::str::<impl str>::to_uppercase"] = M["alloc::str::<impl str>::to_ascii_uppercase"] = case("to_upper")


def trims(name):
    def m(I, st, frame, f, args, t, stack):
        v = val(I, st, args[0])
        if v[0] == "str":
            return ret(st, ("str", {"trim": v[1].strip(), "trim_end": v[1].rstrip(), "trim_start": v[1].lstrip()}[name]))
        return ret(st, ("pure", name, (v,), ()))
    return m


for n in ("trim", "trim_end", "trim_start"):
    M["core::str::<impl str>::" + n] = trims(n)


# ---- boxes and options ----------------------------------------------------------------------------------------------
def box(v):
    return rec(BOX, None, [("0", v)])


for n in ("alloc::sync::Arc::new", "alloc::rc::Rc::new", "alloc::boxed::Box::new", "<alloc::boxed::Box<T> as core::convert::From<T>>::from",
          "<alloc::sync::Arc<T> as core::convert::From<T>>::from", "<alloc::rc::Rc<T> as core::convert::From<T>>::from"):
    M[n] = lambda I, st, frame, f, args, t, stack: ret(st, box(args[0]))


@on("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "alloc::vec::Vec::as_slice", "core::option::Option::as_deref")
def _(I, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    place = args[0][1]
    v = I.load(st, place)
    n = 0
    while v[0] == "ref" and n < 12:
        place, v, n = v[1], I.load(st, v[1]), n + 1
    if "as_deref" in f[1]:
        if v[0] == "rec" and v[3] == "Some":
            inner = (place[0], place[1] + (("f", "0", OPTION),))
            w = I.load(st, inner)
            if w[0] == "rec" and w[2] == BOX:
                return ret(st, some(("ref", (inner[0], inner[1] + (("f", "0", BOX),)))))
            return ret(st, some(w if w[0] in ("str", "text", "lex", "pure") else ("ref", inner)))
        return ret(st, NONE) if v[0] == "rec" and v[3] == "None" else None
    if v[0] == "rec" and v[2] == BOX:
        return ret(st, ("ref", (place[0], place[1] + (("f", "0", BOX),))))
    if v[0] in ("str", "text", "lex", "pure"):
        return ret(st, v)
    if listed(v) is not None:
        return ret(st, ("ref", place))
    return None


def option(name, none, some_):
    M["core::option::Option::" + name] = per_variant(OPTION, {"None": none, "Some": some_})


option("unwrap_or_default", lambda I, s, frame, f, a, t, k, p: ret(s, default(f[3][0] if f[3] else "")), returns(lambda a, p: p))
option("map_or", returns(lambda a, p: a[1]), wrapped(lambda v: v))
option("or", returns(lambda a, p: a[1]), returns(lambda a, p: some(p)))
option("or_else", called0(lambda v: v), returns(lambda a, p: some(p)))
option("is_some_and", returns(lambda a, p: integer(0, "bool")), wrapped(lambda v: v))
option("flatten", returns(lambda a, p: NONE), returns(lambda a, p: p))
option("cloned", returns(lambda a, p: NONE), lambda I, s, frame, f, a, t, k, p: ret(s, some(I.load(s, p[1]) if p[0] == "ref" else p)))
option("copied", returns(lambda a, p: NONE), lambda I, s, frame, f, a, t, k, p: ret(s, some(I.load(s, p[1]) if p[0] == "ref" else p)))
M["core::option::Option::as_deref_mut"] = M["core::option::Option::as_deref"]


@on("core::option::Option::map_or_else")
def _(I, st, frame, f, args, t, stack):
    out = []
    for s, n, p in I.variants(st, args[0], OPTION):
        out += I.apply(s, frame, args[1], [], t, stack) if n == "None" else I.apply(s, frame, args[2], [p], t, stack)
    return out


@on("core::option::Option::filter")
def _(I, st, frame, f, args, t, stack):
    out = []
    for s, n, p in I.variants(st, args[0], OPTION):
        if n == "None":
            out.append((s, "return", NONE))
            continue
        for s2, k, v in I.apply(s, frame, args[1], [temporary(s, p)], t, stack):
            if k != "return":
                out.append((s2, k, v))
                continue
            out += [(s3, "return", some(p) if truth else NONE) for s3, truth in branches(I, s2, v)]
    return out


@on("core::option::Option::zip")
def _(I, st, frame, f, args, t, stack):
    out = []
    for s, n, p in I.variants(st, args[0], OPTION):
        if n == "None":
            out.append((s, "return", NONE))
            continue
        for s2, m, q in I.variants(s, args[1], OPTION):
            out.append((s2, "return", NONE if m == "None" else some(tuple_of(p, q))))
    return out


def default(ty):
    head = ty.split("<")[0]
    if head in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
        return vec([])
    if head in ("alloc::string::String",):
        return ("str", "")
    if ty.startswith("&") and ty.endswith("str"):
        return ("str", "")
    return default_of(ty) or ("default", ty)


@on("core::default::Default::default")
def _(I, st, frame, f, args, t, stack):
    ty = f[3][0] if f[3] else ""
    for body in I.bodies.values():
        if body.get("trait") == "core::default::Default" and body.get("self_ty") == ty and "mir" in body:
            return I.run(body, [], st, stack + (body["path"],))
    v = default(ty)
    return None if v[0] == "default" else ret(st, v)


@on("core::option::Option::unwrap_or_default")
def _(I, st, frame, f, args, t, stack):
    out = []
    ty = f[3][0] if f[3] else ""
    for s, n, p in I.variants(st, args[0], OPTION):
        if n == "Some":
            out.append((s, "return", p))
        else:
            r = M["core::default::Default::default"](I, s, frame, ("fn", "", None, (ty,), "", ()), [], t, stack)
            out += r if r else [(s, "return", ("default", ty))]
    return out


@on("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _(I, st, frame, f, args, t, stack):
    a, b = (val(I, st, x) for x in args)
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[f[4].split("::")[-1]]
    return ret(st, I.binary(st, op, a, b)) if a[0] != "rec" and b[0] != "rec" else None


@on("core::mem::drop")
def _(I, st, frame, f, args, t, stack):
    return ret(st, UNIT)
