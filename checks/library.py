"""What functions on strings and numbers in packages return: C03."""
import itertools, math, struct
import facts, strings
from absint import *
from absint import Limit
from functional import vec, temporary
from strings import Library, NAN, between, character, chars, literal, outcomes, point, string

P = tuple(("param", i) for i in range(4))
NOTHING = ("nothing",)
FAILURE = ("failure",)
KNOWN = {"trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "to_string", "rounded", "code", "is_match", "encode_text", "encode_quoted_attribute", "encode_unquoted_attribute",
         "encode_safe", "encode_double_quoted_attribute", "encode_single_quoted_attribute", "hash", *strings.FUNCTIONS}
HEADS = {"S", "F", "int", "pure", "op", "un", "bits", "frombits", "cast", "param", "parsed", "rec", "nothing", "capture", "group", "ch", "regex", "sym"}


class Outside(Exception):
    """What a value is remains open."""


# ---- terms ------------------------------------------------------------------------------------------------------------
def known(v, outermost=True):
    """Whether what a term means is known."""
    if not isinstance(v, tuple) or not v:
        return True
    if not isinstance(v[0], str):
        return all(known(x, outermost) for x in v)
    if v[0] == "F":
        return len(v) == 3 or outermost
    if v[0] in ("S", "int", "param", "sym", "ch", "capture", "nothing"):
        return True
    if v[0] == "rec":
        return all(known(x) for _, x in v[4])
    return v[0] in HEADS and (v[0] != "pure" or v[1] in KNOWN) and all(known(x, False) for x in v[1:] if isinstance(x, tuple))


WIDER = ("u64", "i64", "u128", "i128", "usize", "isize")


def tidy(v):
    """A term in a form which hides how it is put together."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ("S", "F", "int", "ch", "capture", "param"):
        return v
    v = tuple(tidy(x) for x in v)
    if v[:1] == ("rec",) and v[2] == "array":
        return ("rec", None, "vec", None, v[4])
    if len(v) == 4 and v[0] == "pure":
        if v[1] in ("trim_start", "trim_end") and len(v[2]) == 1 and v[2][0][0] == "pure" and {v[1], v[2][0][1]} == {"trim_start", "trim_end"}:
            return ("pure", "trim", v[2][0][2], ())
    if len(v) == 4 and v[0] == "cast" and v[1] == "IntToInt" and v[3] in WIDER:
        return v[2]
    if len(v) == 4 and v[0] == "cast" and v[1] == "IntToFloat" and v[2][0] == "cast" and v[2][1] == "IntToInt" and v[2][3] in WIDER:
        return v[:2] + (v[2][2], v[3])
    return v


def boolean_table(v):
    """Of a term over the bits of two parameters; None if it is none."""
    if v[0] == "frombits":
        return boolean_table(v[1])
    if v[0] == "bits" and v[1] in P[:2]:
        return tuple(bool(i >> v[1][1] & 1) for i in range(4))
    if v[0] == "op" and v[1] in ("BitAnd", "BitOr", "BitXor"):
        a, b = boolean_table(v[2]), boolean_table(v[3])
        if a and b:
            return tuple({"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[v[1]] for x, y in zip(a, b))
    if v[0] == "un" and v[1] == "Not":
        a = boolean_table(v[2])
        return a and tuple(not x for x in a)
    if v[0] == "int":
        return {0: (False,) * 4, (1 << 64) - 1: (True,) * 4}.get(v[1])
    return None


VALUES = {"sqrt": math.sqrt, "exp": math.exp, "exp2": lambda x: 2.0 ** x, "exp_m1": math.expm1, "ln": math.log, "log10": math.log10, "log2": math.log2, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "recip": lambda x: 1 / x,
          "powf": math.pow, "powi": math.pow, "sin": math.sin, "cos": math.cos, "tan": math.tan, "hypot": math.hypot, "rem_euclid": lambda x, y: x - y * math.floor(x / y) if y > 0 else x - y * math.ceil(x / y), "fract": lambda x: math.fmod(x, 1),
          "div_euclid": lambda x, y: float(math.floor(x / y) if y > 0 else math.ceil(x / y)), "signum": lambda x: math.copysign(1.0, x), "copysign": math.copysign,
          "round_ties_even": lambda x: float(round(x)), **strings.UNARY, "to_degrees": math.degrees, "to_radians": math.radians}


def number(v):
    """The number which a term over numbers is; None if that is open."""
    if v[0] == "F":
        return math.nan if v == NAN else v[1] if len(v) == 3 else None
    if v[0] == "int":
        return v[1]
    if v[0] == "cast" and v[1] in ("IntToFloat", "FloatToFloat"):
        return number(v[2])
    if v[0] == "pure" and v[1] in VALUES:
        xs = [number(x) for x in v[2]]
        if None in xs or any(x != x or math.isinf(x) for x in xs):
            return None
        if v[1] == "sqrt" and xs[0] < 0:
            return math.nan
        try:
            return VALUES[v[1]](*xs)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            return None
    if v[0] == "op" and v[1] in ("Add", "Sub", "Mul", "Div"):
        x, y = number(v[2]), number(v[3])
        if x is None or y is None or v[1] == "Div" and y == 0:
            return None
        return {"Add": x + y, "Sub": x - y, "Mul": x * y, "Div": x / y if y else 0}[v[1]]
    if v[0] == "bits":
        x = number(v[1])
        return None if x is None or v[1] == NAN else struct.unpack("<Q", struct.pack("<d", x))[0]
    if v[0] == "frombits":
        x = number(v[1])
        return struct.unpack("<d", struct.pack("<Q", x))[0] if isinstance(x, int) and 0 <= x < 1 << 64 else None
    if v[0] == "un" and v[1] == "Not":
        x = number(v[2])
        return x ^ ((1 << 64) - 1) if isinstance(x, int) else None
    if v[0] == "op" and v[1] in ("BitAnd", "BitOr", "BitXor"):
        x, y = number(v[2]), number(v[3])
        return {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[v[1]] if isinstance(x, int) and isinstance(y, int) else None
    if v[0] == "un" and v[1] == "Neg":
        x = number(v[2])
        return None if x is None else -x
    return None


def close(x, y):
    return x != x and y != y or x == y or math.isfinite(x) and math.isfinite(y) and abs(x - y) <= 1e-9 * max(abs(x), abs(y))


# ---- one function -----------------------------------------------------------------------------------------------------
class Function:
    def __init__(self, check, world, package, name, f, body):
        self.check, self.world, self.package, self.name, self.f, self.body = check, world, package, name, f, body
        self.decided = self.undecided = 0

    def wrong(self, key, message):
        self.check.violation(f"{key}:{self.name}", message, f"packages/{self.package}/{self.f['file']}:{self.f['line']} ({self.name})")

    def run(self, args):
        self.world.paths = 0
        out = outcomes(self.world, self.body, list(args))
        for s, k, v in out:
            if k not in ("return", "panic"):
                raise Outside(k)
            # What depends on something outside says nothing about these arguments.
            if any(mentions(c[0], ("call", "after", "init", "havoc", "overflow")) for c in s.conds):
                raise Outside("condition")
        return out

    def case(self, args, expected, kind):
        """Checks every outcome for some arguments; `expected` maps an outcome's conditions to its value, None for any, or is the value."""
        self.check.ok(kind)
        try:
            out = self.run(args)
        except (Outside, Limit):
            self.undecided += 1
            return
        for s, k, v in out:
            if k == "panic":
                e = next((e[1] for e in s.events if e[0] == "panic"), None)
                self.wrong("abort", f"{self.name} aborts for {show(args)}: {e and e['what']}")
                return
            want = expected(s) if callable(expected) else expected
            if want is None:
                continue
            v, want = tidy(v), tidy(want)
            if v[0] == "rec" and v[3] == "Err" and want == FAILURE:
                continue
            if not known(v) and not (want == FAILURE and v[0] == "rec" and v[3] == "Ok"):
                self.undecided += 1
                return
            if want[0] in ("F", "int") and v[0] not in ("F", "int", "S", "rec", "param") and number(v) is None:
                self.undecided += 1
                return
            if not same(v, want):
                self.wrong("result", f"{self.name} for {show(args)} is {show((v,))} instead of {show((want,))}")
                return
        self.decided += 1


def mentions(v, heads):
    return isinstance(v, tuple) and (bool(v) and v[0] in heads or any(mentions(x, heads) for x in v))


def same(v, want):
    if v == want and repr(v) == repr(want):
        return True
    a, b = boolean_table(v), boolean_table(want)
    if a and b:
        return a == b
    x, y = number(v), number(want)
    if x is not None and y is not None:
        return close(x, y)
    if v[0] == want[0] == "rec" and v[:3] == want[:3] and len(v[4]) == len(want[4]) and v[3] == want[3]:
        return all(f[0] == g[0] and same(f[1], g[1]) for f, g in zip(v[4], want[4]))
    return v == want


def show(vs):
    def one(v):
        if not isinstance(v, tuple) or not v:
            return str(v)
        if v[0] == "S":
            return '"' + "".join((u[0] if isinstance(u[0], str) else "…") if u[2] else "\\x??" for u in v[1] if u[0] == "capture" or u[1] == 0) + '"' if all(len(u) == 3 for u in v[1]) else str(v[1])
        if v[0] == "F":
            return "NaN" if v == NAN else f"{v[1]:g}" if len(v) == 3 else f"a number between {v[1]:g} and {v[2]:g}"
        if v[0] == "int":
            return str(bool(v[1])).lower() if v[2] == "bool" else str(v[1])
        if v[0] == "rec" and v[2] == "vec":
            return "[" + ", ".join(one(x) for _, x in v[4]) + "]"
        if v[0] == "rec":
            return f"{v[3] or v[2]}({', '.join(one(x) for _, x in v[4])})"
        if v[0] == "param":
            return "xyzw"[v[1]]
        if v[0] == "pure":
            return f"{v[1].split('::')[-1]}({', '.join(one(x) for x in v[2])})"
        if v[0] in ("bits", "frombits"):
            return one(v[1])
        return f"{v[0]}({', '.join(one(x) if isinstance(x, tuple) else str(x) for x in v[1:])})"
    return ", ".join(one(v) for v in vs)


# ---- families of strings ----------------------------------------------------------------------------------------------
BROKEN = string(("?", 0))
LETTERS = "abcdefg"


def shapes(n, widths=(1, 2, 3, 4)):
    """Strings of other characters each, of all widths."""
    for k in range(n + 1):
        for ws in itertools.product(widths, repeat=k):
            yield string(*zip(LETTERS, ws))


def words(n, alphabet):
    for k in range(n + 1):
        for cs in itertools.product(alphabet, repeat=k):
            yield string(*cs)


def invalid():
    yield BROKEN
    yield string(("a", 1), ("?", 0))
    yield string(("?", 0), ("a", 1))
    yield string(("a", 2), ("?", 0), ("b", 1))
    yield ("S", string(("a", 3))[1][:2])
    yield ("S", string(("a", 2))[1][1:])


class Table:
    """Strings as Python's, so that its functions are the reference."""

    @staticmethod
    def text(v):
        cs = chars(v[1])
        return None if cs is None else "".join(chr({"a": 97, "b": 98}.get(c, ord(c))) for c, _ in cs)


def back(s, widths):
    return string(*((c, widths[c]) for c in s))


def plain(v):
    return "".join(c for c, _ in chars(v[1]))


def boolean(x):
    return integer(int(x), "bool")


def pairs(deep):
    """(string, pattern, widths) over two characters."""
    for widths in ({"a": 1, "b": 2},) + (({"a": 3, "b": 1}, {"a": 2, "b": 4}) if deep else ({"a": 3, "b": 1},)):
        ws = list(widths.items())
        for s in words(5 if deep else 4, ws):
            for p in words(3 if deep else 2, ws):
                yield s, p, widths


# ---- functions on strings ---------------------------------------------------------------------------------------------
def two(result, broken):
    """A function of a string and a pattern."""
    def cases(deep):
        for s, p, widths in pairs(deep):
            yield (s, p), result(plain(s), plain(p), widths)
        for s in invalid():
            yield (s, string(("a", 1))), broken(s, string(("a", 1)))
        for p in invalid():
            yield (string(("a", 1), ("b", 1)), p), broken(string(("a", 1), ("b", 1)), p)
    return cases


def strip(s, p, start, end):
    while p and start and s.startswith(p):
        s = s[len(p):]
    while p and end and s.endswith(p):
        s = s[:-len(p)]
    return s


def number_of(n):
    return point(float(n))


def find(s, p, widths):
    return None if not s and not p else number_of(s.find(p) + 1 if p in s else -1)


def replacements(deep):
    for s, p, widths in pairs(False):
        for r in words(1, list(widths.items())):
            yield (s, p, r), back(plain(s).replace(plain(p), plain(r)), widths)
    a, ab = string(("a", 1)), string(("a", 1), ("b", 1))
    for x in invalid():
        yield (x, a, a), x
        yield (ab, x, a), ab
        yield (ab, a, x), ab


def splits(s, p, widths):
    if p:
        return vec([back(x, widths) for x in s.split(p)])
    return None


def one(result, broken):
    def cases(deep):
        for s in shapes(4 if deep else 3):
            yield (s,), result(s)
        for s in invalid():
            yield (s,), broken(s)
    return cases


def cut(units, start, end, step):
    """From a place to another, counted from one, both included."""
    return units[start - 1:end] if step == 0 else None


INDICES = [point(x) for x in (-math.inf, -1e300, -2, -1, 0, 1, 2, 3, 4, 5, 6, 1e9, 2.0 ** 53, 1e300, math.inf)] + [NAN] + [between(a / 2, a / 2 + 0.5) for a in range(-4, 12)] + [point(a / 2) for a in range(-3, 11, 2)]


def slices(by_bytes):
    def cases(deep):
        candidates = list(shapes(3, (1, 2, 4)) if deep else shapes(2, (1, 3))) + [string(("a", 1), ("b", 2), ("c", 3))]
        for s in candidates + list(invalid()):
            valid = chars(s[1])
            pieces = [s[1][i:i + 1] for i in range(len(s[1]))] if by_bytes else None if valid is None else [string(c)[1] for c in valid]
            for start, end in bounds(deep):
                if pieces is None:
                    yield (s, start, end), ("S", ())
                elif whole(start) and whole(end):
                    a, b = clamped(start, len(pieces)), clamped(end, len(pieces))
                    yield (s, start, end), ("S", sum(pieces[max(a, 1) - 1:max(b, 0)], ()))
                else:
                    yield (s, start, end), None
    return cases


def bounds(deep):
    return [(a, b) for a, b in itertools.product(INDICES, INDICES) if deep or whole(a) or whole(b)]


def whole(x):
    return x != NAN and len(x) == 3 and (math.isinf(x[1]) or x[1] == math.floor(x[1]))


def clamped(x, n):
    return int(max(-1, min(n + 1, x[1])))


def views(deep):
    for s in list(shapes(2) if deep else shapes(2, (1, 3))) + list(invalid()):
        n = len(s[1])
        for start, end in bounds(deep):
            if whole(start) and whole(end):
                a, b = clamped(start, n), clamped(end, n)
                yield (s, start, end), ("S", s[1][max(a, 1) - 1:max(b, 0)])
            else:
                yield (s, start, end), None


def view_prefixes(deep):
    for s in words(3, [("a", 1), ("b", 2)]):
        n = len(s[1])
        for p in words(2, [("a", 1), ("b", 2)]):
            for start, end in itertools.product([point(x) for x in (-1, 0, 1, 2, 3, n, n + 1, n + 2, 1e300)] + [NAN], repeat=2):
                if NAN in (start, end):
                    yield (s, start, end, p), None
                else:
                    a, b = clamped(start, n), clamped(end, n)
                    piece = s[1][max(a, 1) - 1:max(b, 0)]
                    yield (s, start, end, p), boolean(piece[:len(p[1])] == p[1])


def code_points(deep):
    for n in (0, 1, 65, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x1f600):
        yield (point(n),), literal(chr(n))
    for n in (0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x7fffffff, 0xffffffff, 1e10, 2.0 ** 63, 1e300, math.inf):
        yield (point(n),), ("S", ())
    for n in (-math.inf, -1e300, -1):
        yield (point(n),), None
    yield (NAN,), None
    for n in (-1, 0, 64, 0xd7ff, 0x10ffff):
        yield (between(n, n + 1),), None


def scalars(expected, *cells):
    """A function of numbers, by what it does to all, and to some."""
    def cases(deep):
        if expected is not None:
            yield P[:len(cells[0][0]) if cells else 2], expected
        for args, value in cells:
            yield tuple(point(x) if not isinstance(x, tuple) else x for x in args), value if value is None or isinstance(value, tuple) else point(value)
    return cases


def pure(name, *args):
    return ("pure", name, args, ())


ROUNDED = [x / 4 for x in range(-14, 15)] + [0.0, -0.0, 2.0 ** 53, -2.0 ** 53, 1e300, 123456.75, math.inf, -math.inf]


def rounding(name, f):
    yield_cells = [((x,), f(x)) for x in ROUNDED] + [((NAN,), NAN)]
    for a in range(-6, 6):
        lo, hi = a / 2, (a + 1) / 2
        value = {"abs": between(abs(lo), abs(hi)) if lo >= 0 else between(abs(hi), abs(lo))}.get(name) or point(f(lo + 0.25))
        yield_cells.append(((between(lo, hi),), value if name != "fract" else None))
    return scalars(None, *yield_cells)


def parsing(deep):
    def want(s, n=None):
        d = {c[0]: c[2] for c in s.conds}
        parsed = next(((k[1], v) for k, v in d.items() if k[0] == "discr" and k[1][0] == "parsed"), None)
        if parsed is None:
            return None
        return parsed
    for v in list(shapes(2)):
        def expected(s, v=v):
            p = want(s)
            if p is None:
                return FAILURE
            return ok(("parsed", v, "f64")) if p[1] == "Ok" else FAILURE
        yield (v,), expected
    for v in invalid():
        yield (v,), FAILURE


# ---- the table --------------------------------------------------------------------------------------------------------
def op(name, *args):
    return ("frombits", ("op", name) + tuple(("bits", a) for a in args))


def specification():
    S = {}
    core = S["core"] = {}
    core["character_from_code_point"] = code_points
    core["character_to_code_point"] = one(lambda s: NAN if not s[1] else ("cast", "IntToFloat", ("pure", "code", (character(*chars(s[1])[0]),), ()), "f64"), lambda s: NAN)
    core["absolute"] = rounding("abs", abs)
    for name, f in (("ceil", strings.UNARY["ceil"]), ("floor", strings.UNARY["floor"]), ("round", strings.away), ("truncate", strings.UNARY["trunc"])):
        core[name] = rounding(name, f)
    core["fraction"] = rounding("fract", lambda x: math.nan if math.isinf(x) else math.fmod(x, 1.0))
    core["convert_number_to_string"] = scalars(None, ((P[0],), pure("to_string", P[0])))
    core["epsilon"] = scalars(None, ((), 2.0 ** -52))
    core["infinity"] = scalars(None, ((), math.inf))
    core["nan"] = scalars(None, ((), NAN))
    core["exponential"] = scalars(None, ((0,), 1), ((1,), math.e), ((-2,), math.exp(-2)), ((P[0],), None))
    core["square_root"] = scalars(None, ((0,), 0), ((4,), 2), ((2,), math.sqrt(2)), ((-4,), NAN), ((P[0],), None))
    core["power"] = scalars(None, ((2, 3), 8), ((3, 2), 9), ((2, -1), 0.5), ((4, 0.5), 2), ((P[0], P[1]), None))
    core["remainder"] = scalars(None, *(((x, y), VALUES["rem_euclid"](x, y)) for x in (-7, -6, -1, 0, 1, 6, 7, 7.5) for y in (-3, 2, 3, 5)))
    core["is_nan"] = scalars(None, ((NAN,), boolean(True)), *(((x,), boolean(False)) for x in ROUNDED + [between(0, 1), between(-math.inf, -1)]))
    core["parse_number"] = parsing
    for name, o in (("and", "BitAnd"), ("or", "BitOr"), ("xor", "BitXor")):
        core["bit_" + name] = scalars(op(o, P[0], P[1]))
    core["bit_not"] = scalars(None, ((P[0],), ("frombits", ("un", "Not", ("bits", P[0])))))
    for name, o in (("left", "Shl"), ("right", "Shr")):
        core[f"bit_{name}_shift"] = scalars(None, *(((P[0], n), None if n > 63 else ("frombits", ("op", o, ("bits", P[0]), integer(n, "u64")))) for n in (0, 1, 2, 31, 32, 63)))
    core["bit_to_integer_64"] = scalars(None, ((P[0],), ("frombits", ("cast", "FloatToInt", P[0], "u64"))))
    core["bit_from_integer_64"] = scalars(None, ((P[0],), ("cast", "IntToFloat", ("bits", P[0]), "f64")))
    core["string_starts_with"] = two(lambda s, p, w: boolean(s.startswith(p)), lambda s, p: boolean(s[1][:len(p[1])] == p[1]))
    core["utf8_contains"] = two(lambda s, p, w: boolean(p in s), lambda s, p: boolean(False))
    core["utf8_starts_with"] = two(lambda s, p, w: boolean(s.startswith(p)), lambda s, p: boolean(False))
    core["utf8_ends_with"] = two(lambda s, p, w: boolean(s.endswith(p)), lambda s, p: boolean(False))
    core["utf8_find"] = two(find, lambda s, p: point(-1))
    core["utf8_split"] = two(splits, lambda s, p: vec([s]))
    core["utf8_trim_start_matches"] = two(lambda s, p, w: back(strip(s, p, True, False), w), lambda s, p: s)
    core["utf8_trim_end_matches"] = two(lambda s, p, w: back(strip(s, p, False, True), w), lambda s, p: s)
    core["utf8_replace"] = replacements
    core["utf8_characters"] = one(lambda s: vec([string(c) for c in chars(s[1])]), lambda s: vec([]))
    core["utf8_length"] = one(lambda s: number_of(len(chars(s[1]))), lambda s: NAN)
    core["byte_length"] = one(lambda s: number_of(len(s[1])), lambda s: number_of(len(s[1])))
    for name, f in (("to_lowercase",) * 2, ("to_uppercase",) * 2, ("trim",) * 2, ("trim_start",) * 2, ("trim_end",) * 2):
        core["utf8_" + name] = one(lambda s, f=f: pure(f, s), lambda s: s)
    core["utf8_slice"] = slices(False)
    core["byte_slice"] = slices(True)
    core["view_to_string"] = views
    core["view_starts_with"] = view_prefixes
    prelude = S["prelude"] = {}
    prelude["equal_strings"] = lambda deep: [((s, p), boolean(s == p)) for s, p, _ in pairs(deep)] + [((s, p), boolean(s == p)) for s in invalid() for p in invalid()]
    prelude["debug_number"] = scalars(None, ((P[0],), pure("to_string", P[0])))
    json = S["json"] = {}
    json["encode_number"] = scalars(None, ((P[0],), pure("to_string", P[0])))

    def decoded(s):
        c = next((c for c in s.conds if c[0][0] == "discr" and c[0][1][0] == "parsed"), None)
        return None if c is None else ("parsed", c[0][1][1], "f64") if c[2] == "Ok" else NAN
    json["decode_number"] = lambda deep: [((v,), lambda s, v=v: decoded(s)) for v in shapes(2)] + [((v,), None) for v in invalid()]
    html = S["html"] = {}
    html["encode_text"] = one(lambda s: pure("encode_text", s), lambda s: None)
    html["encode_attribute"] = one(lambda s: pure("encode_quoted_attribute", s), lambda s: None)
    regex = S["regex"] = {}
    regex["expression_matches"] = lambda deep: [((P[0], v), pure("is_match", P[0], v)) for v in shapes(2)] + [((P[0], v), boolean(False)) for v in invalid()]

    def captured(s, v):
        c = next((c for c in s.conds if c[0][0] == "captures"), None)
        if c is None:
            return None
        return vec([] if c[1] == 0 else [NOTHING if g is None else ("S", (("capture", v, g),)) for g in strings.GROUPS[c[1] - 1]])
    regex["expression_match"] = lambda deep: [((P[0], v), lambda s, v=v: captured(s, v)) for v in shapes(2)] + [((P[0], v), vec([])) for v in invalid()]

    def compiled(s, v):
        c = next((c for c in s.conds if c[0][0] == "discr" and c[0][1][0] == "compiled"), None)
        return FAILURE if c is None or c[2] != "Ok" else ok(("regex", v))
    regex["expression_new"] = lambda deep: [((v,), lambda s, v=v: compiled(s, v)) for v in shapes(2)] + [((v,), FAILURE) for v in invalid()]
    return S


# Escapes which keep a text within its place.
ESCAPES = {"encode_text": ("encode_text", "encode_safe", "encode_quoted_attribute", "encode_double_quoted_attribute", "encode_single_quoted_attribute", "encode_unquoted_attribute"),
           "encode_quoted_attribute": ("encode_quoted_attribute", "encode_safe", "encode_unquoted_attribute")}


def results(c):
    crates = facts.load("ffi")["pen_ffi"]
    c.rule("On every path of a function, for every family of strings of characters which remain open (up to their widths and which of them are equal) and every family of numbers, what it returns is what a reference says, "
           "and it does not abort; paths which depend on something not modelled are left out.")
    deep = c.tier == "thorough"
    for package, functions in specification().items():
        crate = next(iter(facts.load("pkg:" + package).values()))
        own = {f["name"] for a in crate.adts.values() if len(a["variants"]) == 1 and len(a["variants"][0]["fields"]) == 1 for f in a["variants"][0]["fields"]}
        world = Library([crate, crates], own)
        world.unroll = max(world.unroll, 24)
        for name, cases in functions.items():
            full = f"_pen_{package}_{name}"
            fs = {f["path"].split("::")[-1]: f for f in crate.items["fns"] if full in f["path"].split("::")}
            f = fs.get("run") or fs.get(full)
            body = f and crate.body(f["path"])
            if body is None:
                c.note(f"{full} was not found")
                continue
            F = Function(c, world, package, full, f, body)
            c.analysed([f["path"]])
            for args, expected in cases(deep):
                if package == "html" and isinstance(expected, tuple):
                    accepted(F, args, expected)
                else:
                    F.case(args, expected, f"{package}.{name}")
            if F.undecided:
                c.note(f"{full}: {F.undecided} of {F.decided + F.undecided} cases are not decided")
        if package == "prelude":
            hashes(c, world, crate)


def accepted(F, args, expected):
    """Whether a text is escaped enough for its place."""
    F.check.ok("html.escapes")
    try:
        out = F.run(args)
    except (Outside, Limit):
        F.undecided += 1
        return
    for s, k, v in out:
        v = tidy(v)
        if k == "panic":
            F.wrong("abort", f"{F.name} aborts for {show(args)}")
        elif not known(v):
            F.undecided += 1
        elif not (v[0] == "pure" and v[1] in ESCAPES[expected[1]] and v[2] == expected[2]):
            F.wrong("result", f"{F.name} for {show(args)} is {show((v,))} instead of {show((expected,))}")


def hashes(c, world, crate):
    """Equal values have equal hashes, others have others as far as the hash function tells them apart, and a hash leads to one of 32 places."""
    def function(name):
        fs = {f["path"].split("::")[-1]: f for f in crate.items["fns"] if name in f["path"].split("::")}
        f = fs.get("run") or fs.get(name)
        body = f and crate.body(f["path"])
        return body and Function(c, world, "prelude", name, f, body)

    def terms(F, args):
        try:
            return [(k, tidy(v)) for s, k, v in F.run(args)]
        except (Outside, Limit):
            F.undecided += 1
            return []
    F = function("_pen_prelude_hash_number")
    if F:
        c.analysed([F.f["path"]])
        cells = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0 ** 53, math.inf, -math.inf, 1e-300]
        values = {repr(x): terms(F, (point(x),)) for x in cells}
        for x, y in itertools.combinations(cells, 2):
            c.ok("prelude.hash_number")
            a, b = values[repr(x)], values[repr(y)]
            if all(len(v) == 1 and v[0][0] == "return" and known(v[0][1]) for v in (a, b)):
                equal = repr(a) == repr(b)
                if equal != (x == y):
                    F.wrong("hash", f"{F.name}: the hashes of {x!r} and {y!r}, which are {'equal' if x == y else 'others'}, are {'the same' if equal else 'not computed from the same'}")
        if any(k == "panic" for v in values.values() for k, _ in v):
            F.wrong("abort", f"{F.name} aborts")
    F = function("_pen_prelude_hash_string")
    if F:
        c.analysed([F.f["path"]])
        families = list(words(3, [("a", 1), ("b", 2)])) + list(invalid())
        values = {s: terms(F, (s,)) for s in families}
        for s, p in itertools.combinations(families, 2):
            c.ok("prelude.hash_string")
            a, b = values[s], values[p]
            if all(len(v) == 1 and v[0][0] == "return" and known(v[0][1]) for v in (a, b)) and a == b:
                F.wrong("hash", f"{F.name}: the hash of {show((s,))} tells it from no other string, as {show((p,))}")
        if any(k == "panic" for v in values.values() for k, _ in v):
            F.wrong("abort", f"{F.name} aborts")
    F = function("_pen_prelude_combine_hashes")
    if F:
        c.analysed([F.f["path"]])
        c.ok("prelude.combine_hashes")
        for k, v in terms(F, P[:2]):
            if k == "panic":
                F.wrong("abort", f"{F.name} aborts")
            elif known(v) and not (mentions(v, {"param"}) and all(has(v, p) for p in P[:2])):
                F.wrong("hash", f"{F.name} does not depend on both hashes: {show((v,))}")
            elif known(v) and swapped(v) == v:
                F.wrong("hash", f"{F.name} does not tell the hashes apart: {show((v,))}")
    F = function("_pen_prelude_hash_to_index")
    if F:
        c.analysed([F.f["path"]])
        layers = {}
        for level in range(1, 14):
            c.ok("prelude.hash_to_index")
            for k, v in terms(F, (P[0], point(1), point(level))):
                if k == "panic":
                    F.wrong("abort", f"{F.name} aborts for level {level}")
                    continue
                r = interval(v)
                if r is not None and not (1 <= r[0] and r[1] <= 32):
                    F.wrong("index", f"{F.name} is between {r[0]} and {r[1]}, and not between 1 and 32: {show((v,))}")
                if known(v):
                    if not has(v, P[0]):
                        F.wrong("index", f"{F.name} does not depend on the hash: {show((v,))}")
                    if v in layers.values() and next(l for l, x in layers.items() if x == v) != level:
                        F.wrong("index", f"{F.name} reads the same part of a hash for the levels {next(l for l, x in layers.items() if x == v)} and {level}")
                    layers[level] = v


def has(v, p):
    return isinstance(v, tuple) and (v == p or any(has(x, p) for x in v))


def swapped(v):
    if v in P[:2]:
        return P[1 - v[1]]
    if not isinstance(v, tuple):
        return v
    out = tuple(swapped(x) for x in v)
    return out[:2] + tuple(sorted(out[2:4], key=repr)) if out[:1] == ("op",) and out[1] in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and v[2:4] == tuple(sorted(v[2:4], key=repr)) else out


def interval(v):
    """The least and the greatest integer which a term may be; None if that is open."""
    if v[0] == "int":
        return v[1], v[1]
    if v[0] == "F" and v != NAN:
        return v[1], v[2]
    if v[0] == "cast" and v[1] == "IntToFloat":
        return interval(v[2])
    if v[0] == "cast":
        return interval(v[2]) if v[1] == "IntToInt" else None
    if v[0] == "op":
        a, b = interval(v[2]), interval(v[3])
        if v[1] == "BitAnd":
            xs = [x[1] for x in (a, b) if x]
            return (0, min(xs)) if xs else None
        if v[1] == "Rem" and b and b[0] == b[1] > 0:
            return 0, b[0] - 1
        if v[1] == "Shr" and a is None and b and b[0] == b[1]:
            return 0, (1 << (64 - b[0])) - 1
        if a and b and v[1] == "Add":
            return a[0] + b[0], a[1] + b[1]
        if a and b and v[1] == "Sub":
            return a[0] - b[1], a[1] - b[0]
        if a and b and v[1] == "Mul" and min(a + b) >= 0:
            return a[0] * b[0], a[1] * b[1]
    return None
