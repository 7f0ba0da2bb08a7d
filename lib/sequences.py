"""Models of vectors, slices and iterators whose elements are known."""
from absint import *


def seq(kind, items):
    return ("rec", None, kind, None, tuple((str(i), v) for i, v in enumerate(items)))


def items(v):
    return [x for _, x in v[4]] if v[0] == "rec" and v[1] is None and v[2] in ("vec", "array", "seq") else None


def place_of(I, st, v):
    return I.deref(v)


def same(a, b):
    """Structural equality of known values; None when undecided."""
    if a == b and a[0] in ("rec", "int", "str"):
        return True
    if a[0] == "int" and b[0] == "int":
        return a[1] == b[1]
    if a[0] == "rec" and b[0] == "rec" and a[1] is None and b[1] is None:
        if a[3] != b[3]:
            return False
        rs = [same(x, dict(b[4]).get(n, UNIT)) for n, x in a[4]]
        return False if False in rs else None if None in rs else True
    return None


def equality(negated):
    def m(I, st, frame, f, args, t, stack):
        a, b = (I.load(st, I.deref(x)) for x in args)
        while a[0] == "ref" and b[0] == "ref":
            a, b = I.load(st, a[1]), I.load(st, b[1])
        r = same(a, b)
        return None if r is None else [(st, "return", integer(int(r != negated), "bool"))]
    return m


def known(handler):
    def m(I, st, frame, f, args, t, stack):
        place = I.deref(args[0]) if args[0][0] != "rec" else None
        v = I.load(st, place) if place else args[0]
        xs = items(v)
        if xs is None:
            return None
        return handler(I, st, place, v, xs, args)
    return m


def ret(st, v):
    return [(st, "return", v)]


def push(I, st, place, v, xs, args):
    I.store(st, place, seq("vec", xs + [args[1]]))
    return ret(st, UNIT)


def pop(I, st, place, v, xs, args):
    I.store(st, place, seq("vec", xs[:-1]))
    return ret(st, some(xs[-1]) if xs else NONE)


def next_(I, st, place, v, xs, args):
    if place is None or v[2] != "seq":
        return None
    I.store(st, place, seq("seq", xs[1:]))
    return ret(st, some(xs[0]) if xs else NONE)


def next_back(I, st, place, v, xs, args):
    if place is None or v[2] != "seq":
        return None
    I.store(st, place, seq("seq", xs[:-1]))
    return ret(st, some(xs[-1]) if xs else NONE)


def iter_(I, st, place, v, xs, args):
    if place is None:
        return ret(st, seq("seq", xs))
    return ret(st, seq("seq", [("ref", (place[0], place[1] + (("idx", integer(i)),))) for i in range(len(xs))]))


def into_iter(I, st, frame, f, args, t, stack):
    v = args[0]
    if items(v) is not None:
        return ret(st, seq("seq", items(v)))
    if v[0] == "ref":
        w = I.load(st, v[1])
        if w[0] == "rec" and w[2] == "seq":
            return ret(st, v)
        if items(w) is not None:
            return iter_(I, st, v[1], w, items(w), args)
    return None


def extend(I, st, frame, f, args, t, stack):
    place = I.deref(args[0])
    xs, ys = items(I.load(st, place)), items(args[1])
    if ys is None and args[1][0] == "ref":
        ys = items(I.load(st, args[1][1]))
    if xs is None or ys is None:
        return None
    ys = [I.load(st, y[1]) if y[0] == "ref" and y[1][1] and y[1][1][-1][0] == "idx" else y for y in ys]
    I.store(st, place, seq("vec", xs + ys))
    return ret(st, UNIT)


def loaded(I, st, place, v, xs, args):
    return ret(st, seq("seq", [I.load(st, I.deref(x)) if x[0] == "ref" else x for x in xs]))


def from_box(I, st, frame, f, args, t, stack):
    for root, v in st.mem.items():
        if root[0] == "P" and contains(root[1], args[0]):
            for u in subterms(v):
                if u[0] == "rec" and u[2] == "array":
                    return ret(st, seq("vec", items(u)))
    return None


def from_array(I, st, frame, f, args, t, stack):
    xs = items(args[0])
    return None if xs is None else ret(st, seq("vec", xs))


def fold(backwards):
    def m(I, st, frame, f, args, t, stack):
        xs = items(args[0])
        if xs is None:
            return None
        states = [(st, "return", args[1])]
        for x in xs[::-1] if backwards else xs:
            out = []
            for s, k, v in states:
                out += I.apply(s, frame, args[2], [v, x], t, stack) if k == "return" else [(s, k, v)]
            states = out
        return states
    return m


MODELS_SEQ = {
    "core::iter::traits::iterator::Iterator::fold": fold(False), "core::iter::traits::double_ended::DoubleEndedIterator::rfold": fold(True),
    "alloc::vec::Vec::new": lambda I, st, *r: ret(st, seq("vec", [])),
    "alloc::vec::Vec::with_capacity": lambda I, st, *r: ret(st, seq("vec", [])),
    "alloc::vec::Vec::push": known(push), "alloc::vec::Vec::pop": known(pop),
    "alloc::boxed::box_assume_init_into_vec_unsafe": from_box, "alloc::slice::<impl [T]>::into_vec": from_box,
    "<alloc::vec::Vec<T> as core::convert::From<[T; N]>>::from": from_array,
    "core::slice::<impl [T]>::iter": known(iter_),
    "core::iter::traits::iterator::Iterator::rev": known(lambda I, st, place, v, xs, args: ret(st, seq("seq", xs[::-1]))),
    "core::iter::traits::iterator::Iterator::copied": known(loaded), "core::iter::traits::iterator::Iterator::cloned": known(loaded),
    "core::iter::traits::iterator::Iterator::next": known(next_), "core::iter::traits::double_ended::DoubleEndedIterator::next_back": known(next_back),
    "core::iter::traits::collect::IntoIterator::into_iter": into_iter,
    "<I as core::iter::traits::collect::IntoIterator>::into_iter": into_iter,
    "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend": extend,
    "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend": extend,
    "alloc::vec::Vec::extend_from_slice": extend,
    "core::iter::traits::collect::Extend::extend": extend,
    "alloc::vec::Vec::len": known(lambda I, st, place, v, xs, args: ret(st, integer(len(xs), "usize"))),
    "alloc::vec::Vec::is_empty": known(lambda I, st, place, v, xs, args: ret(st, integer(int(not xs), "bool"))),
    "core::cmp::PartialEq::eq": equality(False), "core::cmp::PartialEq::ne": equality(True),
}
for n in ("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next", "<core::iter::adapters::rev::Rev<I> as core::iter::traits::iterator::Iterator>::next",
          "<core::iter::adapters::copied::Copied<I> as core::iter::traits::iterator::Iterator>::next", "<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next"):
    MODELS_SEQ[n] = known(next_)
for n in ("<core::option::Option<T> as core::cmp::PartialEq>",):
    MODELS_SEQ[n + "::eq"], MODELS_SEQ[n + "::ne"] = equality(False), equality(True)
