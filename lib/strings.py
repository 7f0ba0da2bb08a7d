"""Strings of opaque characters and numbers in cells, for functions whose results depend on nothing else.

A string is a sequence of bytes, each the k-th of a character of a known width; which character it is remains open, except that the
same name is the same character and other names are others.  A number is a point, or everything between two points.
"""
import math, re
import functional, effects
from absint import *
from functional import ret, vec, listed, iterator, refs, temporary
from effects import World, MODELS_WORLD

NAN = ("F", None, None)


def point(x):
    return NAN if x != x else ("F", float(x), float(x))


def between(a, b):
    """All numbers between two, without them."""
    return ("F", float(a), float(b), "open")


def string(*chars):
    """Of characters (name, width); a width of 0 is a byte of no character."""
    return ("S", tuple((c, k, w) for c, w in chars for k in range(max(w, 1))))


def literal(s):
    return string(*((c, len(c.encode())) for c in s))


def chars(units):
    """The characters of a string, or None if it is none."""
    out, i = [], 0
    while i < len(units):
        c, k, w = units[i]
        if w == 0 or k != 0 or tuple(units[i:i + w]) != tuple((c, j, w) for j in range(w)):
            return None
        out.append((c, w))
        i += w
    return out


def character(c, w):
    return ("ch", c, w)


LIMITS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "usize": (0, (1 << 64) - 1), "u128": (0, (1 << 128) - 1), "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-(1 << 31), (1 << 31) - 1),
          "i64": (-(1 << 63), (1 << 63) - 1), "isize": (-(1 << 63), (1 << 63) - 1), "i128": (-(1 << 127), (1 << 127) - 1)}


def away(x):
    """Rounded to whole numbers, halves away from zero."""
    if math.isinf(x) or math.isnan(x) or abs(x) >= 2 ** 52:
        return x
    r = math.floor(abs(x))
    return math.copysign(r + 1 if abs(x) - r >= 0.5 else r, x)


UNARY = {"abs": abs, "floor": lambda x: float(math.floor(x)) if math.isfinite(x) else x, "ceil": lambda x: float(math.ceil(x)) if math.isfinite(x) else x,
         "trunc": lambda x: float(math.trunc(x)) if math.isfinite(x) else x, "round": away}


def clamp(n, ty):
    lo, hi = LIMITS[ty]
    return integer(max(lo, min(hi, n)), ty)


def compare(op, a, b):
    """Of two cells; None if it depends."""
    if a == NAN or b == NAN:
        return op == "Ne"
    if len(a) == 3 and len(b) == 3:
        x, y = a[1], b[1]
        return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
    below = a[2] <= b[1]
    above = a[1] >= b[2]
    if below:
        return op in ("Lt", "Le", "Ne")
    if above:
        return op in ("Gt", "Ge", "Ne")
    return None


class Library(World):
    def __init__(self, crates, own):
        super().__init__(crates, own)
        self.models = {**self.models, **MODELS}

    def operand(self, st, frame, o):
        v = super().operand(st, frame, o)
        if v[0] == "constant" and v[2] in ("f64", "f32"):
            m = re.fullmatch(r"(-?(?:\d[\d.eE+-]*|inf|NaN))_?(?:f64|f32)?", str(v[1]))
            if m:
                return point(float(m.group(1)))
            name = str(v[1]).split("::")[-1]
            if name in CONSTANTS:
                return point(CONSTANTS[name])
        return v

    def plain(self, st, v, n=0):
        v = super().plain(st, v, n)
        if v[0] == "default" and v[1] in EMPTY:
            return ("S", ())
        if v[0] == "default" and v[1] == "f64":
            return point(0)
        return literal(v[1]) if v[0] == "str" else v

    def rvalue(self, st, frame, r, s):
        if r["k"] == "cast":
            v = self.operand(st, frame, r["a"])
            ty = self.ty(frame, r["ty"])
            if v[0] == "F" and r["c"] == "FloatToInt" and ty in LIMITS:
                if v == NAN:
                    return integer(0, ty)
                if len(v) == 3:
                    return clamp(math.trunc(v[1]) if math.isfinite(v[1]) else (1 << 200) * (1 if v[1] > 0 else -1), ty)
                # Everything between two numbers next to each other has the same whole part.
                if math.isfinite(v[1]) and math.isfinite(v[2]):
                    n = math.ceil(v[1]) if v[1] < 0 and v[2] <= 0 and v[2] - v[1] <= 1 and math.floor(v[1]) + 1 >= v[2] else math.floor(v[1]) if v[1] >= 0 and math.floor(v[1]) + 1 >= v[2] else None
                    if n is not None:
                        n = n + 1 if v[1] < 0 and v[1] == n else n
                        return clamp(n, ty)
                lo, hi = LIMITS[ty]
                if v[1] >= hi:
                    return integer(hi, ty)
                if v[2] <= lo:
                    return integer(lo, ty)
            if v[0] == "int" and r["c"] == "IntToFloat":
                return point(float(v[1]))
            if v[0] == "ch":
                return ("pure", "code", (v,), ()) if ty == "u32" else ("cast", r["c"], ("pure", "code", (v,), ()), ty)
            if r["c"].startswith("Transmute") and v[0] not in ("ref", "fn", "closure"):
                return bits(self.plain(st, v), ty)
        if r["k"] == "un" and r["op"] == "Neg":
            v = self.operand(st, frame, r["a"])
            if v[0] == "F":
                return v if v == NAN else ("F", -v[2], -v[1]) + v[3:]
        return super().rvalue(st, frame, r, s)

    def binary(self, st, op, a, b):
        if a[0] == "F" and b[0] == "F":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                c = compare(op, a, b)
                if c is not None:
                    return integer(int(c), "bool")
            elif op in ("Add", "Sub", "Mul", "Div", "Rem"):
                if a == NAN or b == NAN:
                    return NAN
                if len(a) == 3 and len(b) == 3:
                    try:
                        return point({"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y, "Div": lambda x, y: x / y, "Rem": math.fmod}[op](a[1], b[1]))
                    except (ZeroDivisionError, ValueError):
                        return NAN if a[1] == 0 or op == "Rem" else point(math.copysign(math.inf, a[1]) * math.copysign(1, b[1]))
                if op == "Add" and len(b) == 3 and math.isfinite(b[1]):
                    return ("F", a[1] + b[1], a[2] + b[1], "open")
                if op == "Sub" and len(b) == 3 and math.isfinite(b[1]):
                    return ("F", a[1] - b[1], a[2] - b[1], "open")
        if "S" in (a[0], b[0]) and op in ("Eq", "Ne"):
            a, b = self.plain(st, a), self.plain(st, b)
            if a[0] == b[0] == "S":
                return integer(int((a == b) == (op == "Eq")), "bool")
        return super().binary(st, op, a, b)

    def terminator(self, st, frame, t, stack):
        if t["k"] == "assert":
            v = self.operand(st, frame, t["a"])
            if v[0] == "overflow" and v[2][0] == v[3][0] == "int":
                x, y = v[2][1], v[3][1]
                n = {"Add": x + y, "Sub": x - y, "Mul": x * y}[v[1]]
                lo, hi = LIMITS[v[2][2]]
                v = integer(int(not lo <= n <= hi), "bool")
            if v[0] == "int" and bool(v[1]) != bool(t["exp"]):
                st.event("panic", what=t["msg"], args=(), ln=t["ln"], fn=frame["body"]["path"])
                return [(st, "panic", None)]
        return super().terminator(st, frame, t, stack)


EMPTY = ("&str", "&[u8]", "alloc::string::String", "alloc::vec::Vec<u8>", "pen_ffi::string::ByteString")
CONSTANTS = {"NAN": math.nan, "INFINITY": math.inf, "NEG_INFINITY": -math.inf, "EPSILON": 2.0 ** -52, "MAX": 1.7976931348623157e308, "MIN": -1.7976931348623157e308, "MIN_POSITIVE": 2.2250738585072014e-308}


def bits(v, ty):
    """The bits of a value as another type's."""
    if v[0] == "bits" and ty not in ("u64", "i64"):
        return v[1]
    if v[0] == "frombits" and ty in ("u64", "i64"):
        return v[1]
    return ("bits", v) if ty in ("u64", "i64") else ("frombits", v)


NUMERIC, TEXTUAL, FLOAT = re.compile(r"\b[ui](8|16|32|64|128|size)\b"), re.compile("String|str\\b"), re.compile(r"\bf(32|64)\b")
MODELS = {}


def on(*names):
    def decorate(f):
        for n in names:
            before = MODELS.get(n) or MODELS_WORLD.get(n) or functional.M.get(n)

            def model(I, st, frame, g, args, t, stack, f=f, before=before):
                r = f(I, st, frame, g, args, t, stack)
                return r if r is not None or before is None else before(I, st, frame, g, args, t, stack)
            MODELS[n] = model
        return f
    return decorate


STR = ("core::str::<impl str>", "alloc::str::<impl str>", "std::str::<impl str>")
SLICE = ("core::slice::<impl [T]>", "alloc::slice::<impl [T]>", "std::slice::<impl [T]>", "<[T]>")
STRING = ("alloc::string::String", "alloc::vec::Vec")


def of(kinds, *names):
    return on(*(f"{k}::{n}" for k in kinds for n in names))


def text(I, st, v):
    v = I.plain(st, v)
    return v[1] if v[0] == "S" else None


def boolean(x):
    return integer(int(x), "bool")


def panic(st, frame, t, what):
    st.event("panic", what=what, args=(), ln=t["ln"], fn=frame["body"]["path"])
    return [(st, "panic", None)]


def boundary(units, i):
    return 0 <= i <= len(units) and (i == len(units) or units[i][1] == 0)


@on("core::str::converts::from_utf8", "core::str::from_utf8", "std::str::from_utf8", "alloc::string::String::from_utf8")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    if s is None:
        return None
    return ret(st, ok(("S", s)) if chars(s) is not None else err(("sym", "utf8", 0)))


@on("pen_ffi::string::ByteString::new", "<pen_ffi::string::ByteString as core::default::Default>::default", "pen_ffi::string::ByteString::empty", "alloc::string::String::new")
def _(I, st, frame, f, args, t, stack):
    if not args:
        return ret(st, ("S", ()))


@of(STR + SLICE + STRING, "len")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, integer(len(s), "usize"))


@of(STR + SLICE + STRING, "is_empty")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, boolean(not s))


@of(STR, "chars")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None or chars(s) is None else ret(st, iterator([character(c, w) for c, w in chars(s)]))


def indices(units):
    out, i = [], 0
    for c, w in chars(units):
        out.append((i, (c, w)))
        i += w
    return out


@of(STR, "char_indices")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, iterator([rec("tuple", None, [("0", integer(i, "usize")), ("1", character(*c))]) for i, c in indices(s)]))


@of(STR, "bytes")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, iterator([("byte", u) for u in s]))


@of(STR, "is_char_boundary")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None or args[1][0] != "int" else ret(st, boolean(boundary(s, args[1][1])))


@of(SLICE, "iter")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, iterator([temporary(st, ("byte", u)) for u in s]))


def pattern(I, st, v):
    """The characters of a pattern, or None."""
    v = I.plain(st, v)
    if v[0] == "S":
        return v[1]
    if v[0] == "ch":
        return string((v[1], v[2]))[1]
    if v[0] == "int" and v[2] == "char":
        return literal(chr(v[1]))[1]
    return None


def positions(s, p, overlapping=False):
    """Where a pattern matches."""
    out, i = [], 0
    while i <= len(s):
        if s[i:i + len(p)] == p and boundary(s, i):
            out.append(i)
            i += 0 if overlapping or not p else len(p) - 1
        i += 1
    return out


def searching(names, result):
    @of(STR + SLICE, *names)
    def _(I, st, frame, f, args, t, stack):
        s = text(I, st, args[0])
        p = pattern(I, st, args[1]) if s is not None else None
        if p is None:
            return None
        r = result(s, p)
        return ret(st, r)


def split(s, p):
    out, last = [], 0
    for i in positions(s, p):
        out.append(("S", s[last:i]))
        last = i + len(p)
    return out + [("S", s[last:])]


def trimmed(s, p, start, end):
    while p and start and s[:len(p)] == p:
        s = s[len(p):]
    while p and end and len(s) >= len(p) and s[len(s) - len(p):] == p:
        s = s[:len(s) - len(p)]
    return s


def first(xs):
    return NONE if not xs else some(xs[0])


searching(["contains"], lambda s, p: boolean(bool(positions(s, p))))
searching(["find"], lambda s, p: first([integer(i, "usize") for i in positions(s, p)]))
searching(["rfind"], lambda s, p: first([integer(i, "usize") for i in reversed(positions(s, p, True))]))
searching(["starts_with"], lambda s, p: boolean(s[:len(p)] == p))
searching(["ends_with"], lambda s, p: boolean(len(s) >= len(p) and s[len(s) - len(p):] == p))
searching(["strip_prefix"], lambda s, p: some(("S", s[len(p):])) if s[:len(p)] == p else NONE)
searching(["strip_suffix"], lambda s, p: some(("S", s[:len(s) - len(p)])) if len(s) >= len(p) and s[len(s) - len(p):] == p else NONE)
searching(["trim_start_matches"], lambda s, p: ("S", trimmed(s, p, True, False)))
searching(["trim_end_matches"], lambda s, p: ("S", trimmed(s, p, False, True)))
searching(["trim_matches"], lambda s, p: ("S", trimmed(s, p, True, True)))
searching(["split"], lambda s, p: iterator(split(s, p)))
searching(["rsplit"], lambda s, p: iterator(list(reversed(split(s, p)))))
searching(["split_terminator"], lambda s, p: iterator(split(s, p)[:-1] if split(s, p)[-1] == ("S", ()) else split(s, p)))
searching(["split_inclusive"], lambda s, p: iterator([("S", x[1] + p) for x in split(s, p)[:-1]] + [x for x in split(s, p)[-1:] if x[1]]))
searching(["matches"], lambda s, p: iterator([("S", p) for _ in positions(s, p)]))
searching(["match_indices"], lambda s, p: iterator([rec("tuple", None, [("0", integer(i, "usize")), ("1", ("S", p))]) for i in positions(s, p)]))
searching(["eq_ignore_ascii_case"], lambda s, p: ("pure", "eq_ignore_ascii_case", (("S", s), ("S", p)), ()))


@of(STR, "split_once", "rsplit_once")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    p = pattern(I, st, args[1]) if s is not None else None
    if p is None:
        return None
    at = positions(s, p) if f[1].endswith("::split_once") else list(reversed(positions(s, p, True)))
    return ret(st, some(rec("tuple", None, [("0", ("S", s[:at[0]])), ("1", ("S", s[at[0] + len(p):]))])) if at else NONE)


@of(STR, "splitn", "rsplitn")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    p = pattern(I, st, args[2]) if s is not None else None
    if p is None or args[1][0] != "int" or "rsplitn" in f[1]:
        return None
    out, last = [], 0
    for i in positions(s, p)[:max(args[1][1] - 1, 0)]:
        out.append(("S", s[last:i]))
        last = i + len(p)
    return ret(st, iterator(out + [("S", s[last:])]))


@of(STR, "replace", "replacen")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    p = pattern(I, st, args[1]) if s is not None else None
    r = text(I, st, args[2]) if p is not None else None
    if r is None:
        return None
    limit = args[3][1] if len(args) > 3 and args[3][0] == "int" else None
    return ret(st, ("S", replaced(s, p, r, limit)))


def replaced(s, p, r, limit=None):
    out, last = (), 0
    for i in positions(s, p)[:limit]:
        out += s[last:i] + r
        last = i + len(p)
    return out + s[last:]


@of(STR, "trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim_ascii", "trim_left", "trim_right")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, ("pure", {"trim_left": "trim_start", "trim_right": "trim_end"}.get(f[1].split("::")[-1], f[1].split("::")[-1]), (("S", s),), ()))


@of(STR + SLICE, "to_string", "to_owned", "to_vec", "into_vec", "as_bytes", "as_str", "into_bytes", "as_slice", "into_boxed_slice", "into_boxed_str", "into_string")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, ("S", s))


@on("<T as alloc::string::ToString>::to_string", "alloc::string::ToString::to_string")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    if v[0] == "ch":
        return ret(st, string((v[1], v[2])))
    return ret(st, v) if v[0] == "S" else None


@on("core::convert::Into::into", "<T as core::convert::Into<U>>::into", "core::convert::From::from")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    types = " ".join(str(x) for x in (f[3] or ())) + " " + str(f[4])
    if v[0] == "ch":
        if NUMERIC.search(types):
            return ret(st, ("pure", "code", (v,), ()))
        return ret(st, string((v[1], v[2]))) if TEXTUAL.search(types) else None
    if FLOAT.search(types) and (v[0] == "int" or v[:2] == ("pure", "code")):
        return ret(st, point(float(v[1])) if v[0] == "int" else ("cast", "IntToFloat", v, "f64"))
    return ret(st, v) if v[0] in ("S", "F") else None


@on("core::char::methods::<impl char>::len_utf8")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    return ret(st, integer(v[2], "usize")) if v[0] == "ch" else None


def span(I, st, v, n):
    v = I.plain(st, v) if v[0] == "ref" else v
    if v[0] == "rec" and v[2].endswith("RangeFull") or v[0] == "constant" and "RangeFull" in str(v):
        return 0, n
    return functional.range_of(v, n) if v[0] == "rec" else None


@on("core::ops::index::Index::index", "core::slice::<impl [T]>::index", "core::str::traits::<impl core::ops::index::Index<I> for str>::index")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    if s is None:
        return None
    if args[1][0] == "int":
        return ret(st, temporary(st, ("byte", s[args[1][1]]))) if args[1][1] < len(s) else panic(st, frame, t, "index out of bounds")
    r = span(I, st, args[1], len(s))
    if r is None:
        return None
    if not 0 <= r[0] <= r[1] <= len(s):
        return panic(st, frame, t, "range out of bounds")
    if "str" in " ".join((f[1], f[4])).split("::")[1:3] or "for str" in f[4] or "for str" in f[1] or (f[3] and f[3][0] in ("str", "alloc::string::String")):
        if not (boundary(s, r[0]) and boundary(s, r[1])):
            return panic(st, frame, t, "range not at characters")
    return ret(st, ("S", s[r[0]:r[1]]))


@of(STR + SLICE, "get")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    if s is None:
        return None
    if args[1][0] == "int":
        return ret(st, some(temporary(st, ("byte", s[args[1][1]]))) if args[1][1] < len(s) else NONE)
    r = span(I, st, args[1], len(s))
    if r is None:
        return None
    fine = 0 <= r[0] <= r[1] <= len(s) and ("[T]" in f[1] or boundary(s, r[0]) and boundary(s, r[1]))
    return ret(st, some(("S", s[r[0]:r[1]])) if fine else NONE)


@of(STR + SLICE, "split_at")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    if s is None or args[1][0] != "int":
        return None
    i = args[1][1]
    if not 0 <= i <= len(s) or "str" in f[1].split("::") and not boundary(s, i):
        return panic(st, frame, t, "index out of bounds")
    return ret(st, rec("tuple", None, [("0", ("S", s[:i])), ("1", ("S", s[i:]))]))


@of(SLICE, "first", "last")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, some(temporary(st, ("byte", s[0 if f[1].endswith("first") else -1]))) if s else NONE)


def comparison(negated):
    def m(I, st, frame, f, args, t, stack):
        a, b = I.plain(st, args[0]), I.plain(st, args[1])
        if a[0] == b[0] and a[0] in ("S", "byte", "ch"):
            return ret(st, boolean((a == b) != negated))
        return None
    return m


on("core::cmp::PartialEq::eq")(comparison(False))
on("core::cmp::PartialEq::ne")(comparison(True))


def joining(separated):
    def m(I, st, frame, f, args, t, stack):
        xs = listed(I.plain(st, args[0]))
        sep = text(I, st, args[1]) if separated else ()
        parts = None if xs is None or sep is None else [I.plain(st, x) for x in xs]
        if parts is None or any(p[0] != "S" for p in parts):
            return None
        out = ()
        for i, p in enumerate(parts):
            out += (sep if i else ()) + p[1]
        return ret(st, ("S", out))
    return m


of(SLICE, "join")(joining(True))
of(SLICE, "concat")(joining(False))


def collected(xs):
    """The text of characters, bytes or strings, or None."""
    out = ()
    for x in xs:
        if x[0] == "ch":
            out += string((x[1], x[2]))[1]
        elif x[0] == "byte":
            out += (x[1],)
        elif x[0] == "S":
            out += x[1]
        else:
            return None
    return out


@on("core::iter::traits::iterator::Iterator::collect")
def _(I, st, frame, f, args, t, stack):
    target = f[3][-1] if f[3] else ""
    if target not in ("alloc::string::String", "alloc::vec::Vec<u8>"):
        return None
    w = functional.as_iterator(I, st, args[0])
    if w is None:
        return None
    out = []
    for s, kind, xs in functional.drain(functional.Ctx(I, frame, t, stack), st, w):
        if kind != "return":
            out.append((s, kind, xs))
            continue
        r = collected([I.plain(s, x) for x in xs])
        if r is None:
            return None
        out.append((s, "return", ("S", r)))
    return out


@of(("alloc::string::String", "alloc::vec::Vec"), "push", "push_str", "extend_from_slice")
def _(I, st, frame, f, args, t, stack):
    if args[0][0] != "ref":
        return None
    s, p = I.plain(st, args[0]), I.plain(st, args[1])
    if s[0] == "rec" and s[2] == "vec" and not s[4] and f[1].endswith("extend_from_slice") and p[0] == "S":
        s = ("S", ())
    if s[0] != "S":
        return None
    r = collected([p])
    if r is None:
        return None
    I.store(st, args[0][1], ("S", s[1] + r))
    return ret(st, UNIT)


# ---- numbers ----------------------------------------------------------------------------------------------------------
FLOATS = ("core::f64::<impl f64>", "std::f64::<impl f64>", "core::f64::math", "std::num::f64::<impl f64>", "core::num::f64::<impl f64>", "std::f64::math", "num_traits::float::Float", "libm")
FUNCTIONS = ("abs ceil floor fract round trunc sqrt exp exp2 exp_m1 ln log10 log2 powf powi rem_euclid div_euclid round_ties_even cbrt signum copysign is_nan is_finite is_infinite is_sign_negative recip sin cos tan to_degrees "
             "to_radians total_cmp mul_add hypot clamp max min").split()


def whole(name):
    @of(FLOATS, name)
    def _(I, st, frame, f, args, t, stack):
        vs = tuple(I.plain(st, a) for a in args)
        if all(v[0] == "F" for v in vs):
            r = cell(name, vs)
            if r is not None:
                return ret(st, r)
        return ret(st, ("pure", name, vs, ()))


def cell(name, vs):
    a = vs[0]
    if name == "is_nan":
        return boolean(a == NAN)
    if name in ("is_finite", "is_infinite") and (a == NAN or len(a) == 3):
        return boolean(a != NAN and math.isinf(a[1]) == (name == "is_infinite"))
    if name in ("max", "min"):
        b = vs[1]
        if a == NAN or b == NAN:
            return b if a == NAN else a
        c = compare("Lt", a, b)
        return None if c is None else b if c == (name == "max") else a
    if name == "clamp":
        r = cell("max", (a, vs[1])) if a != NAN else NAN
        return r if r is None or r == NAN else cell("min", (r, vs[2]))
    if a == NAN:
        return NAN if name in UNARY or name == "fract" else None
    if name == "fract" and len(a) == 3:
        return NAN if math.isinf(a[1]) else point(math.fmod(a[1], 1.0))
    if name in UNARY and len(a) == 3:
        return point(UNARY[name](a[1]))
    if name == "abs":
        return a if a[1] >= 0 else ("F", -a[2], -a[1], "open") if a[2] <= 0 else None
    if name in UNARY and math.isfinite(a[1]) and math.isfinite(a[2]):
        # Halfway between the ends all are alike, unless what rounds to another lies between.
        x, y = UNARY[name](a[1] + (a[2] - a[1]) / 4), UNARY[name](a[2] - (a[2] - a[1]) / 4)
        if x == y and 2 * a[1] == math.floor(2 * a[1]) and a[2] - a[1] <= 0.5:
            return point(x)
    return None


for _n in FUNCTIONS:
    whole(_n)


@of(FLOATS, "to_bits", "from_bits")
def _(I, st, frame, f, args, t, stack):
    return ret(st, bits(I.plain(st, args[0]), "u64" if f[1].endswith("to_bits") else "f64"))


@on("core::intrinsics::transmute", "core::mem::transmute", "std::mem::transmute")
def _(I, st, frame, f, args, t, stack):
    target = f[3][-1] if f[3] else ""
    return ret(st, bits(I.plain(st, args[0]), target))


def wrapping(name, op):
    @of(tuple(f"core::num::<impl {ty}>" for ty in LIMITS), name)
    def _(I, st, frame, f, args, t, stack):
        return ret(st, I.binary(st, op, *(I.plain(st, a) for a in args)))


for _n, _o in (("wrapping_add", "Add"), ("wrapping_mul", "Mul"), ("wrapping_sub", "Sub")):
    wrapping(_n, _o)


@of(tuple(f"core::num::<impl {ty}>" for ty in LIMITS), "saturating_sub", "saturating_add", "checked_sub", "checked_add", "min", "max")
def _(I, st, frame, f, args, t, stack):
    a, b = I.plain(st, args[0]), I.plain(st, args[1])
    if a[0] != "int" or b[0] != "int":
        return None
    name = f[1].split("::")[-1]
    n = a[1] - b[1] if name.endswith("sub") else a[1] + b[1]
    r = clamp(n, a[2])
    if name.startswith("checked"):
        return ret(st, some(r) if r[1] == n else NONE)
    return ret(st, r)


def chosen(name):
    @on(f"core::cmp::Ord::{name}", f"core::cmp::{name}")
    def _(I, st, frame, f, args, t, stack):
        a, b = I.plain(st, args[0]), I.plain(st, args[1])
        if a[0] == b[0] == "int":
            return ret(st, (min if name == "min" else max)((a, b), key=lambda x: x[1]))
        return None


chosen("min")
chosen("max")


@on("core::str::<impl str>::parse")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    n = ("parsed", v, f[3][-1] if f[3] else "")
    out = []
    for i, k in enumerate(("Ok", "Err")):
        s = st.copy()
        s.conds += ((("discr", n), i, k),)
        out.append((s, "return", ok(n) if k == "Ok" else err(("sym", "parse", 0))))
    return out


@on("alloc::fmt::format", "alloc::fmt::format::format_inner")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    if v[0] == "arguments" and len(v[1]) == 1 and v[1][0][0] == "formatted" and v[1][0][1] == "display":
        x = I.plain(st, v[1][0][2])
        options = dict(v[1][0][3]) if len(v[1][0]) > 3 else {}
        if options:
            return ret(st, ("pure", "rounded", (x,), ())) if "precision" in options and x[0] not in ("S", "ch") else None
        return ret(st, x if x[0] == "S" else string((x[1], x[2])) if x[0] == "ch" else ("pure", "to_string", (x,), ()))
    return None


@on("core::char::methods::<impl char>::from_u32", "core::char::convert::from_u32", "core::char::from_u32")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    if v[0] != "int":
        return None
    n = v[1]
    return ret(st, some(character(chr(n), len(chr(n).encode()))) if n < 0xd800 or 0xdfff < n < 0x110000 else NONE)


@on("pen_ffi::arc::arc_buffer::ArcBuffer::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("S", ())) if args and args[0][:2] == ("int", 0) else None


@on("pen_ffi::none::None::new", "<pen_ffi::none::None as core::default::Default>::default")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("nothing",))


@on("pen_ffi::list::List::new", "<pen_ffi::list::List as core::default::Default>::default")
def _(I, st, frame, f, args, t, stack):
    return ret(st, vec([]))


@on("html_escape::encode::html_entity::encode_text", "html_escape::encode::html_entity::encode_quoted_attribute", "html_escape::encode::html_entity::encode_unquoted_attribute", "html_escape::encode::html_entity::encode_safe",
    "html_escape::encode::html_entity::encode_double_quoted_attribute", "html_escape::encode::html_entity::encode_single_quoted_attribute")
def _(I, st, frame, f, args, t, stack):
    s = text(I, st, args[0])
    return None if s is None else ret(st, ("pure", f[1].split("::")[-1], (("S", s),), ()))


# ---- regular expressions ----------------------------------------------------------------------------------------------
REGEX = "regex::regex::string::Regex::"


@on(REGEX + "new")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    out = []
    for r, c in ((ok(("regex", v)), 0), (err(("sym", "regex", 0)), 1)):
        s = st.copy()
        s.conds += ((("discr", ("compiled", v)), c, ("Ok", "Err")[c]),)
        out.append((s, "return", r))
    return out


@on(REGEX + "is_match")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("pure", "is_match", tuple(I.plain(st, a) for a in args), ()))


# Captured groups, of which some may have taken no part.
GROUPS = tuple(tuple(("group", i) if b else None for i, b in enumerate(bs)) for bs in ((1,), (1, 1), (1, 0), (1, 0, 1), (1, 1, 0, 0, 1)))


@on(REGEX + "captures")
def _(I, st, frame, f, args, t, stack):
    e, v = I.plain(st, args[0]), I.plain(st, args[1])
    out = []
    for i, groups in enumerate((None,) + GROUPS):
        s = st.copy()
        s.conds += ((("captures", e, v), i, None),)
        out.append((s, "return", NONE if groups is None else some(("captured", v, groups))))
    return out


def groups(I, st, v):
    v = I.plain(st, v)
    return [NONE if g is None else some(("capture", v[1], g)) for g in v[2]] if v[0] == "captured" else None


@on("regex::regex::string::Captures::<'h>::iter")
def _(I, st, frame, f, args, t, stack):
    g = groups(I, st, args[0])
    return None if g is None else ret(st, iterator(g))


@on("regex::regex::string::Captures::<'h>::len")
def _(I, st, frame, f, args, t, stack):
    g = groups(I, st, args[0])
    return None if g is None else ret(st, integer(len(g), "usize"))


@on("regex::regex::string::Captures::<'h>::get")
def _(I, st, frame, f, args, t, stack):
    g = groups(I, st, args[0])
    return None if g is None or args[1][0] != "int" else ret(st, g[args[1][1]] if args[1][1] < len(g) else NONE)


@on("regex::regex::string::Match::<'h>::as_str")
def _(I, st, frame, f, args, t, stack):
    v = I.plain(st, args[0])
    return ret(st, ("S", (v,))) if v[0] == "capture" else None


# ---- hashes -----------------------------------------------------------------------------------------------------------
@on("siphasher::sip::SipHasher::new", "std::hash::random::DefaultHasher::new", "std::collections::hash_map::DefaultHasher::new")
def _(I, st, frame, f, args, t, stack):
    return ret(st, ("hasher", f[1].split("::")[-2], ()))


@on("core::hash::Hash::hash")
def _(I, st, frame, f, args, t, stack):
    a = args[1]
    while a[0] == "ref" and I.load(st, a[1])[0] == "ref":
        a = I.load(st, a[1])
    h = I.load(st, a[1]) if a[0] == "ref" else a
    if h[0] != "hasher":
        return None
    I.store(st, a[1], h[:2] + (h[2] + (I.plain(st, args[0]),),))
    return ret(st, UNIT)


@on("core::hash::Hasher::finish")
def _(I, st, frame, f, args, t, stack):
    h = I.plain(st, args[0])
    return ret(st, ("pure", "hash", h[2], ())) if h[0] == "hasher" else None


def outcomes(I, body, args):
    """(state, outcome, plain value) of a function for given arguments."""
    return [(s, k, I.plain(s, v) if v is not None else None) for s, k, v in I.run(body, args, State(), (body["path"],))]
