"""Models of hash maps and sets of known keys, and of cells: what the compiler's passes keep their names in.

The order of entries is the order in which they came; a pass whose meaning depends on it is out of reach.
"""
import functional
from absint import *
from functional import Ctx, as_iterator, deep, drain, equal, ret, temporary, tuple_of, val

H = {}
MAPS = ("std::collections::hash::map::HashMap", "hashbrown::map::HashMap", "hamt::Map", "plist::Map", "plist::FlailMap", "indexmap::map::IndexMap", "alloc::collections::btree::map::BTreeMap")
SETS = ("std::collections::hash::set::HashSet", "hashbrown::set::HashSet", "hamt::Set", "indexmap::set::IndexSet", "alloc::collections::btree::set::BTreeSet")


def on(*names):
    def decorate(f):
        for n in names:
            H[n] = f
        return f
    return decorate


def of(types, *names):
    return on(*[f"{t}::{n}" for t in types for n in names])


def table(kind, xs):
    return ("rec", None, kind, None, tuple((str(i), x) for i, x in enumerate(xs)))


def entries(v):
    return [x for _, x in v[4]] if v[0] == "rec" and v[1] is None and v[2] in ("hashmap", "hashset") else None


def kind_of(ty):
    head = ty.split("<")[0].lstrip("&").strip()
    return "hashmap" if head in MAPS else "hashset" if head in SETS else None


def at(I, st, v):
    """(place or None, kind, entries) of a map or set, or of a reference to one."""
    place, n = None, 0
    while v[0] == "ref" and n < 12:
        place, v, n = v[1], I.load(st, v[1]), n + 1
    xs = entries(v)
    return place, (v[2] if xs is not None else None), xs


def key(I, st, v):
    return deep(I, st, v)


def find(I, st, kind, xs, k):
    """The index of a key: None if there is none, -1 if that is not known."""
    k = key(I, st, k)
    for i, x in enumerate(xs):
        r = equal(key(I, st, field(x, "0") if kind == "hashmap" else x), k)
        if r is None:
            a, b = key(I, st, field(x, "0") if kind == "hashmap" else x), k
            if a[0] == b[0] == "str":
                continue
            return -1
        if r:
            return i
    return None


def put(I, st, kind, xs, x, keep=False):
    i = find(I, st, kind, xs, field(x, "0") if kind == "hashmap" else x)
    if i == -1:
        return None
    if i is None:
        return xs + [x]
    if kind == "hashset":
        return xs
    return xs[:i] + [tuple_of(field(xs[i], "0"), field(x, "1"))] + xs[i + 1:]


def gathered(I, st, kind, xs, more):
    for x in more:
        xs = put(I, st, kind, xs, x)
        if xs is None:
            return None
    return xs


@of(MAPS + SETS, "new", "default", "with_hasher", "with_capacity", "with_capacity_and_hasher")
def _(I, st, frame, f, args, t, stack):
    if strip(f[1]).endswith("FlailMap::new"):
        return collected(I, st, frame, "hashmap", args[0], t, stack)
    return ret(st, table("hashmap" if strip(f[1]).rpartition("::")[0] in MAPS else "hashset", []))


@on("core::default::Default::default")
def _(I, st, frame, f, args, t, stack):
    k = kind_of(f[3][0]) if f[3] else None
    return ret(st, table(k, [])) if k else functional.M["core::default::Default::default"](I, st, frame, f, args, t, stack) if "core::default::Default::default" in functional.M else None


def collected(I, st, frame, kind, v, t, stack):
    it = as_iterator(I, st, v)
    if it is None:
        return None
    out = []
    for s, k, xs in drain(Ctx(I, frame, t, stack), st, it):
        if k == "return":
            ys = gathered(I, s, kind, [], xs)
            if ys is None:
                return None
            xs = table(kind, ys)
        out.append((s, k, xs))
    return out


@on("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def _(I, st, frame, f, args, t, stack):
    ty = (f[3][-1] if f[4].endswith("collect") else f[3][0]) if f[3] else ""
    kind = kind_of(ty)
    if kind:
        return collected(I, st, frame, kind, args[0], t, stack)
    inner = parse_type(ty)
    if inner[0] in (RESULT, OPTION) and inner[1] and kind_of(show_type(inner[1][0])):
        out = []
        for s, k, v in functional.M[f[4] if f[4] in functional.M else "core::iter::traits::iterator::Iterator::collect"](I, st, frame, f, args, t, stack):
            if k == "return" and v[3] in ("Ok", "Some"):
                kind = kind_of(show_type(inner[1][0]))
                xs = gathered(I, s, kind, [], functional.listed(field(v, "0")))
                if xs is None:
                    return None
                v = rec(v[2], v[3], [("0", table(kind, xs))])
            out.append((s, k, v))
        return out
    return functional.M["core::iter::traits::iterator::Iterator::collect"](I, st, frame, f, args, t, stack)


@of(MAPS, "get", "index", "get_mut", "get_key_value")
def _(I, st, frame, f, args, t, stack):
    place, kind, xs = at(I, st, args[0])
    if kind != "hashmap":
        return None
    i = find(I, st, kind, xs, args[1])
    if i == -1:
        return None
    name = strip(f[1]).rpartition("::")[2]
    if i is None:
        return [(st, "panic", None)] if name == "index" else ret(st, NONE)
    p = (place[0], place[1] + (("f", str(i), "hashmap"),))
    v = ("ref", (p[0], p[1] + (("f", "1", ""),)))
    if name == "get_key_value":
        v = tuple_of(("ref", (p[0], p[1] + (("f", "0", ""),))), v)
    return ret(st, v if name == "index" else some(v))


@on("core::ops::index::Index::index")
def _(I, st, frame, f, args, t, stack):
    place, kind, xs = at(I, st, args[0])
    if kind == "hashmap":
        return H[MAPS[0] + "::index"](I, st, frame, ("fn", MAPS[0] + "::index") + tuple(f[2:]), args, t, stack)
    m = functional.M.get("core::ops::index::Index::index")
    return m(I, st, frame, f, args, t, stack) if m else None


@of(MAPS + SETS, "contains_key", "contains")
def _(I, st, frame, f, args, t, stack):
    place, kind, xs = at(I, st, args[0])
    if kind is None:
        return None
    i = find(I, st, kind, xs, args[1])
    return None if i == -1 else ret(st, integer(int(i is not None), "bool"))


PERSISTENT = ("hamt::", "plist::")


@of(MAPS + SETS, "insert", "remove", "extend", "insert_iter")
def _(I, st, frame, f, args, t, stack):
    name = strip(f[1])
    persistent = name.startswith(PERSISTENT)
    op = name.rpartition("::")[2]
    place, kind, xs = at(I, st, args[0])
    if kind is None:
        return None
    if op in ("extend", "insert_iter"):
        it = as_iterator(I, st, args[1])
        if it is None:
            return None
        out = []
        for s, k, more in drain(Ctx(I, frame, t, stack), st, it):
            if k != "return":
                out.append((s, k, more))
                continue
            ys = gathered(I, s, kind, xs, more)
            if ys is None:
                return None
            if persistent:
                out.append((s, k, table(kind, ys)))
            else:
                I.store(s, place, table(kind, ys))
                out.append((s, k, UNIT))
        return out
    i = find(I, st, kind, xs, args[1])
    if i == -1:
        return None
    if op == "insert":
        ys = put(I, st, kind, xs, tuple_of(args[1], args[2]) if kind == "hashmap" else args[1])
    else:
        ys = xs if i is None else xs[:i] + xs[i + 1:]
    if persistent:
        return ret(st, table(kind, ys))
    I.store(st, place, table(kind, ys))
    if kind == "hashset":
        return ret(st, integer(int((i is None) == (op == "insert")), "bool"))
    return ret(st, NONE if i is None else some(field(xs[i], "1")))


@of(MAPS + SETS, "len")
def _(I, st, frame, f, args, t, stack):
    place, kind, xs = at(I, st, args[0])
    return None if kind is None else ret(st, integer(len(xs), "usize"))


@of(MAPS + SETS, "is_empty")
def _(I, st, frame, f, args, t, stack):
    place, kind, xs = at(I, st, args[0])
    return None if kind is None else ret(st, integer(int(not xs), "bool"))


@of(MAPS + SETS, "iter", "into_iter", "iter_mut", "drain")
def _(I, st, frame, f, args, t, stack):
    i = as_iterator(I, st, args[0])
    return None if i is None else ret(st, i)


def part(which):
    def m(I, st, frame, f, args, t, stack):
        place, kind, xs = at(I, st, args[0])
        if kind != "hashmap":
            return None
        if place is None or strip(f[1]).rpartition("::")[2].startswith("into_"):
            return ret(st, functional.iterator([field(x, which) for x in xs]))
        return ret(st, functional.iterator([("ref", (place[0], place[1] + (("f", str(i), "hashmap"), ("f", which, "")))) for i in range(len(xs))]))
    return m


of(MAPS, "keys", "into_keys")(part("0"))
of(MAPS, "values", "into_values", "values_mut")(part("1"))


def combined(test, both=False):
    def m(I, st, frame, f, args, t, stack):
        p, k, xs = at(I, st, args[0])
        q, l, ys = at(I, st, args[1])
        if k != "hashset" or l != "hashset":
            return None
        out = []
        for i, x in enumerate(xs):
            j = find(I, st, l, ys, x)
            if j == -1:
                return None
            if test(j is not None):
                out.append(("ref", (p[0], p[1] + (("f", str(i), "hashset"),))))
        if both:
            for i, y in enumerate(ys):
                j = find(I, st, k, xs, y)
                if j == -1:
                    return None
                if j is None:
                    out.append(("ref", (q[0], q[1] + (("f", str(i), "hashset"),))))
        return ret(st, functional.iterator(out))
    return m


of(SETS, "difference")(combined(lambda found: not found))
of(SETS, "intersection")(combined(lambda found: found))
of(SETS, "union")(combined(lambda found: True, both=True))


@of(MAPS + SETS, "retain")
def _(I, st, frame, f, args, t, stack):
    place, kind, xs = at(I, st, args[0])
    if kind is None or place is None:
        return None
    out, work = [], [(st, 0, [])]
    c = Ctx(I, frame, t, stack)
    while work:
        s, i, kept = work.pop()
        if i == len(xs):
            I.store(s, place, table(kind, kept))
            out.append((s, "return", UNIT))
            continue
        q = (place[0], place[1] + (("f", str(i), kind),))
        given = [("ref", (q[0], q[1] + (("f", n, ""),))) for n in "01"] if kind == "hashmap" else [("ref", q)]
        for s2, k, v in c.apply(s, args[1], given):
            if k != "return":
                out.append((s2, k, v))
                continue
            for s3, truth in functional.branches(I, s2, v):
                work.append((s3, i + 1, kept + [xs[i]] if truth else kept))
    return out


# ---- cells ------------------------------------------------------------------------------------------------------------
def inside(v):
    """The place of what a cell holds."""
    return ("ref", (v[1][0], v[1][1] + (("f", "value", "cell"),)))


@on("core::cell::RefCell::new", "core::cell::Cell::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, rec("cell", None, [("value", args[0])]))


@on("core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut", "core::cell::Cell::get_mut", "core::cell::RefCell::get_mut")
def _(I, st, frame, f, args, t, stack):
    v = args[0]
    while v[0] == "ref" and I.load(st, v[1])[0] == "ref":
        v = I.load(st, v[1])
    return ret(st, inside(v)) if v[0] == "ref" else None


@on("core::cell::Cell::get")
def _(I, st, frame, f, args, t, stack):
    return ret(st, I.load(st, inside(args[0])[1])) if args[0][0] == "ref" else None


@on("core::cell::Cell::set", "core::cell::Cell::replace", "core::cell::RefCell::replace")
def _(I, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    p = inside(args[0])[1]
    old = I.load(st, p)
    I.store(st, p, args[1])
    return ret(st, UNIT if strip(f[1]).endswith("set") else old)


@on("core::cell::RefCell::into_inner", "core::cell::Cell::into_inner")
def _(I, st, frame, f, args, t, stack):
    return ret(st, field(args[0], "value"))
