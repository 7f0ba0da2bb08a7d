"""Values which cross the foreign function border: byte strings, lists, numbers and closures; memory layouts; thread safety."""
import re
from absint import *
from sequences import MODELS_SEQ, seq, items
from anyvalue import where, calls, last, carries
from ffiruntime import evaluate, Unknown, flat, equal
import facts

BLOCK, BUFFER, STRING, ARC = "pen_ffi::arc::arc_block::ArcBlock", "pen_ffi::arc::arc_buffer::ArcBuffer", "pen_ffi::string::ByteString", "pen_ffi::arc::Arc"
NULL = ("pure", "core::ptr::null", (), ())


def policy(name, body, stack):
    return not body["path"].startswith((BLOCK, f"<{BLOCK}"))


def new_block(I, st, frame, f, a, t, stack):
    """A block of no size is no block (decided with the blocks themselves)."""
    try:
        layout = evaluate(a[0], {})
        size = layout[0] if isinstance(layout, tuple) else None
    except Unknown:
        size = None
    if size == 0:
        return [(st, "return", rec(BLOCK, None, [("pointer", NULL)]))]
    st.fresh += 1
    p = ("sym", "block", st.fresh)
    st.event("block", layout=a[0], pointer=p)
    return [(st, "return", rec(BLOCK, None, [("pointer", p)]))]


def block_pointer(I, st, v):
    w = I.load(st, I.deref(v)) if v[0] != "rec" else v
    return field(w, "pointer")


def block_null(I, st, frame, f, a, *r):
    p = block_pointer(I, st, a[0])
    if p == NULL or p[0] == "sym" and p[1] == "block":
        return [(st, "return", integer(int(p == NULL), "bool"))]
    return [(st, "return", ("pure", "core::ptr::is_null", (p,), ()))]


def block_get_mut(I, st, frame, f, a, *r):
    p = block_pointer(I, st, a[0])
    if p[0] == "sym" and p[1] == "block":
        return [(st, "return", some(p))]
    return None


def new_arc(I, st, frame, f, a, *r):
    st.fresh += 1
    p = ("sym", "block", st.fresh)
    st.mem[("P", p)] = a[0]
    st.event("block", layout=None, pointer=p)
    return [(st, "return", rec(ARC, None, [("block", p)]))]


def arc_deref(I, st, frame, f, a, *r):
    w = I.load(st, I.deref(a[0]))
    return [(st, "return", ("ref", (("P", field(w, "block")), ())))]


def buffer_models():
    get = lambda I, st, frame, f, a, *r: [(st, "return", block_pointer(I, st, a[0]))]
    return {**MODELS_SEQ, f"{BLOCK}::new": new_block, f"{BLOCK}::is_null": block_null, f"{BLOCK}::get_mut": block_get_mut, f"{BLOCK}::ptr": get, f"{BLOCK}::ptr_mut": get,
            f"<{ARC}<T> as core::convert::From<T>>::from": new_arc, f"{ARC}::new": new_arc, f"{ARC}::<T>::new": new_arc, f"<{ARC}<T> as core::ops::deref::Deref>::deref": arc_deref}


# ---- A08: conversions ----------------------------------------------------------------------------------------------
SAME = {"as_bytes", "as_str", "as_slice", "deref", "as_ref", "borrow", "into_bytes", "from_utf8_unchecked", "into_boxed_slice", "into_string", "to_vec", "to_owned", "into_vec",
        "from_raw_parts"}
CHARACTER = {"from", "encode_utf8", "to_string"}


def source(I, st, t, also=()):
    """What a slice of bytes was taken from."""
    for _ in range(40):
        if t[0] in ("at",):
            t = t[1]
        elif t[0] == "cast":
            t = t[2]
        elif t[0] in ("call", "pure"):
            n, a = (last(t[2]), t[3]) if t[0] == "call" else (last(t[1]), t[2])
            if n in SAME and len(a) == 1 or n in also and a:
                t = a[0]
            else:
                return t
        elif t[0] == "ref":
            v = I.load(st, t[1])
            if v[0] == "init" and v[1][0] == "P":
                v = v[1][1]
            if v == t:
                return t
            t = v
        else:
            return t
    return t


def is_length(I, st, t, argument, also):
    while t[0] == "fld" and t[2] in ("length", "first_byte"):
        t = t[1]
    if t[0] in ("call", "pure"):
        n, a = (last(t[2]), t[3]) if t[0] == "call" else (last(t[1]), t[2])
        return n == "len" and len(a) == 1 and source(I, st, a[0], also) == argument
    return False


def buffer_of(v):
    """The pointer to a byte string's block."""
    for t in subterms(v):
        if t[0] == "rec" and t[2] == BLOCK:
            return field(t, "pointer")
    return None


def whole(I, st, d):
    """A slice of a slice, where it is all of it."""
    while d[0] in ("call", "pure") and last(d[2] if d[0] == "call" else d[1]) in ("index_mut", "get_unchecked_mut"):
        xs = d[3] if d[0] == "call" else d[2]
        r = xs[1]
        if r[0] != "rec" or r[2] is None:
            return d
        low, high = (field(r, n) for n in ("start", "end"))
        if not (r[2].endswith("RangeFull") or (r[2].endswith("RangeTo") or low == integer(0, "usize")) and is_length(I, st, high, st.data.get("source"), st.data.get("also", ()))):
            return d
        d = xs[0]
    return d


def written_bytes(I, st, pointer):
    """(length stores, copies (offset, count, source), other writes) made to the block."""
    lengths, copies, others = [], [], []
    for k, e in st.events:
        if k == "store" and e["place"][0][0] == "P":
            base, off = I.address(("ref", e["place"]))
            if base == pointer:
                (lengths if off == 0 else others).append(e["value"] if off == 0 else (off, e["value"]))
        elif k == "call":
            n = last(e["def_"])
            a = e["args"]
            if n in ("copy_from_slice", "clone_from_slice") and len(a) == 2:
                d = whole(I, st, a[0])
                if d[0] in ("call", "pure") and last(d[2] if d[0] == "call" else d[1]) == "from_raw_parts_mut":
                    p, c = d[3] if d[0] == "call" else d[2]
                    base, off = I.address(p)
                    if base == pointer:
                        copies.append((off, c, a[1]))
            elif n in ("copy_nonoverlapping", "copy", "copy_to_nonoverlapping", "copy_from_nonoverlapping") and len(a) == 3:
                s, d = (a[1], a[0]) if n == "copy_from_nonoverlapping" else (a[0], a[1])
                while d[0] in ("call", "pure") and last(d[2] if d[0] == "call" else d[1]) in ("as_mut_ptr", "from_raw_parts_mut"):
                    d = (d[3] if d[0] == "call" else d[2])[0]
                base, off = I.address(d)
                if base == pointer:
                    while s[0] in ("call", "pure") and last(s[2] if s[0] == "call" else s[1]) == "as_ptr":
                        s = (s[3] if s[0] == "call" else s[2])[0]
                    copies.append((off, a[2], s))
            elif n in ("write", "write_bytes", "fill", "write_unaligned") and a:
                base, off = I.address(a[0])
                if base == pointer:
                    if n == "write" and off == 0:
                        lengths.append(a[1])
                    else:
                        others.append((off, n))
    return lengths, copies, others


def conversions(check):
    F = facts.load("ffi")
    crates = list(F.values())
    ffi = F["pen_ffi"]
    check.rule("a conversion into a byte string allocates a block whose length word is the source's length and whose bytes, from offset eight, are one copy of exactly the source; an empty source makes no block")
    check.rule("equality and hashing of byte strings look at their bytes only; numbers and booleans convert to themselves and back; a list is built in the order of its source; an error keeps its source")
    n = 0
    for b in ffi.bodies:
        if b.get("trait") != "core::convert::From" or b.get("self_ty") not in (BUFFER, STRING) or not b.get("trait_args"):
            continue
        of = b["trait_args"][-1]
        if of == b["self_ty"]:
            continue
        n += 1
        key = f"{last(b['self_ty'])}:from:{of}"
        also = CHARACTER if of == "char" else ()
        I = Interp(crates, policy=policy, models=buffer_models())
        a0 = ("sym", "source", 0)
        start = State()
        start.data.update(source=a0, also=also)
        traces = I.run(b, [a0], start, (b["path"],))
        check.analysed(I.analysed)
        returned = 0
        for st, k, v in traces:
            check.ok("conversion paths")
            if k == "panic":
                check.require(all(any(s[0] == "pure" and "alloc::layout" in s[1] or s == ("int", 0) for s in subterms(x)) for e in st.events if e[0] == "panic" for x in e[1]["args"]), "conversions do not fail",
                              f"{key}:fails", f"converting {of} into a byte string can fail other than for lack of address space", where(b))
                continue
            if k != "return":
                check.violation(f"{key}:{k}", f"converting {of} into a byte string may not end", where(b))
                continue
            returned += 1
            p = buffer_of(v)
            if p is None:
                check.violation(f"{key}:unknown", f"converting {of} makes a byte string from something else than a block", where(b))
                continue
            if p == NULL:
                lengths = {t for c in st.conds for t in subterms(c[0]) if is_length(I, st, t, a0, also)} | {t for c in st.facts for t in subterms(c) if is_length(I, st, t, a0, also)}
                emptiness = [c for c in st.conds if c[0][0] in ("pure", "call") and last(c[0][1] if c[0][0] == "pure" else c[0][2]) == "is_empty" and c[1] != 0 and
                             source(I, st, (c[0][2] if c[0][0] == "pure" else c[0][3])[0], also) == a0]
                check.require(emptiness or any(I.interval(st, t)[1] == 0 for t in lengths), "empty strings have no block", f"{key}:lost", f"converting {of} gives an empty byte string although its source may not be empty", where(b))
                continue
            lengths, copies, others = written_bytes(I, st, p)
            check.require(lengths and is_length(I, st, lengths[-1], a0, also), "lengths stored", f"{key}:length", f"converting {of} does not store its source's length", where(b))
            check.require(len(copies) == 1 and copies[0][0] == 8 and is_length(I, st, copies[0][1], a0, also) and source(I, st, copies[0][2], also) == a0, "bytes copied", f"{key}:bytes",
                          f"converting {of} does not copy exactly its source's bytes behind the length", where(b))
            check.require(not others, "nothing else written", f"{key}:writes", f"converting {of} writes to its block otherwise", where(b))
        check.require(returned, "conversions return", f"{key}:never", f"converting {of} never returns", where(b))
    check.require(n >= 6, "conversions found", "conversions:missing", "conversions into byte strings are missing", "lib/ffi/src/string.rs")
    views(check, crates, ffi)
    comparisons(check, crates, ffi)
    scalars(check, crates, ffi)
    lists(check, crates, ffi)
    errors(check, crates, ffi)


def views(check, crates, ffi):
    for adt in (BUFFER, STRING):
        b = ffi.body(f"{adt}::as_slice")
        if not check.require(b is not None, "views found", f"{last(adt)}:as_slice:missing", "byte strings cannot be read", "lib/ffi/src/string.rs"):
            continue
        I = Interp(crates, policy=policy, models=buffer_models())
        place = (("P", ("sym", "self", 0)), ())
        for st, k, v in I.run(b, [("ref", place)], State(), (b["path"],)):
            check.ok("views")
            if k != "return":
                check.violation(f"{last(adt)}:as_slice:{k}", "reading a byte string does not return", where(b))
                continue
            pointer = next((t for t in subterms(("rec", None, None, None, tuple((str(i), c[0]) for i, c in enumerate(st.conds)))) if t[0] == "pure" and last(t[1]) == "is_null"), None)
            null = any(c[0] == pointer and c[1] != 0 for c in st.conds)
            while v[0] in ("at",):
                v = v[1]
            if v[0] in ("call", "pure") and last(v[2] if v[0] == "call" else v[1]) == "from_raw_parts":
                p, c = v[3] if v[0] == "call" else v[2]
                if null:
                    check.require(c == ("int", 0, "usize") or c[0] == "int" and c[1] == 0, "empty views", f"{last(adt)}:as_slice:empty", "a byte string without a block is not read as empty", where(b))
                    continue
                base, off = I.address(p)
                ok = pointer is not None and base == pointer[2][0] and off == 8
                whole = ("init", ("P", base))
                ok = ok and (c == whole or c[0] == "fld" and c[1] == whole and any(o == 0 and n == c[2] and t.startswith(BUFFER) for (t, n), o in I.offsets.items()))
                check.require(ok, "views", f"{last(adt)}:as_slice:view", "a byte string is not read as the bytes behind its length", where(b))
            elif null and (v[0] in ("ref", "promoted", "constant") or v == ("bytes", ())):
                check.ok("views")
            else:
                check.violation(f"{last(adt)}:as_slice:unknown", "a byte string is read from something else than its block", where(b))


def comparisons(check, crates, ffi):
    def as_slice(I, st, frame, f, a, *r):
        return [(st, "return", ("bytes", I.deref(a[0])))]
    models = {**buffer_models(), f"{BUFFER}::as_slice": as_slice, f"{STRING}::as_slice": lambda I, st, frame, f, a, *r: [(st, "return", ("bytes", (I.deref(a[0])[0], I.deref(a[0])[1] + (("f", "buffer", STRING),))))]}
    x, y = ("ref", (("P", ("sym", "x", 0)), ())), ("ref", (("P", ("sym", "y", 0)), ()))

    def bytes_of(I, st, t):
        for _ in range(6):
            if t[0] == "bytes":
                return t[1][0]
            if t[0] == "ref":
                t = I.load(st, t[1])
            else:
                return None
    found = set()
    for b in ffi.bodies:
        if b.get("self_ty") != STRING:
            continue
        if b.get("trait") == "core::cmp::PartialEq" and last(b["path"]) in ("eq", "ne"):
            found.add("eq")
            I = Interp(crates, policy=policy, models=models)
            for st, k, v in I.run(b, [x, y], State(), (b["path"],)):
                check.ok("comparisons")
                want = last(b["path"])
                ok = k == "return" and v[0] in ("call", "pure") and last(v[2] if v[0] == "call" else v[1]) == want
                if ok:
                    a = v[3] if v[0] == "call" else v[2]
                    ok = {bytes_of(I, st, t) for t in a} == {x[1][0], y[1][0]}
                elif k == "return" and v[0] == "int":
                    # A shortcut: different lengths, or one and the same block.
                    lens = [c for c in st.conds if sum(1 for t in subterms(c[0]) if t[0] in ("pure", "call") and last(t[1] if t[0] == "pure" else t[2]) == "len") == 2]
                    eq = [c for c in st.conds if c[0][0] in ("pure", "call") and last(c[0][1] if c[0][0] == "pure" else c[0][2]) in ("eq", "ne")]
                    same = [c for c in st.conds if any(t[0] == "pure" and last(t[1]) in ("ptr_eq", "eq") or t[0] == "fld" and t[2] == "pointer" for t in subterms(c[0]))]
                    ok = bool((v[1] == 0) == (want == "eq") and (lens or eq) or (v[1] == 1) == (want == "eq") and (same or eq))
                check.require(ok, "comparisons", f"ByteString:{want}", "byte strings are not compared by their bytes", where(b))
            check.analysed(I.analysed)
        elif b.get("trait") == "core::hash::Hash" and last(b["path"]) == "hash":
            found.add("hash")
            I = Interp(crates, policy=policy, models=models)
            for st, k, v in I.run(b, [x, ("sym", "hasher", 0)], State(), (b["path"],)):
                fed = [e for e in calls(st) if any(contains(a, ("sym", "hasher", 0)) for a in e["args"])]
                ok = k == "return" and fed and any(bytes_of(I, st, a) == x[1][0] for e in fed for a in e["args"])
                ok = ok and all(contains(a, ("sym", "hasher", 0)) or bytes_of(I, st, a) == x[1][0] or a[0] in ("int",) or a[0] == "pure" and last(a[1]) == "len" for e in fed for a in e["args"])
                check.require(ok, "hashes", "ByteString:hash", "a byte string's hash depends on something else than its bytes", where(b))
            check.analysed(I.analysed)
    check.require(found == {"eq", "hash"}, "comparisons found", "ByteString:compare:missing", "byte strings are not compared by bytes", "lib/ffi/src/string.rs")


def scalars(check, crates, ffi):
    N, B = "pen_ffi::number::Number", "pen_ffi::boolean::Boolean"
    raw = {N: "f64", B: "bool"}
    seen = set()
    for b in ffi.bodies:
        if b.get("trait") == "core::convert::From" and b.get("trait_args"):
            of, to = b["trait_args"][-1], b.get("self_ty")
        elif b["path"] in (f"{N}::new", f"{B}::new"):
            to = b["path"][:-5]
            of = raw[to]
        else:
            continue
        if not ({of, to} & set(raw)) or "Any" in to:
            continue
        I = Interp(crates, policy=policy, models=buffer_models())
        x = ("sym", "x", 0)
        v0 = rec(of, None, [("value", x)]) if of in raw else x
        for st, k, v in I.run(b, [v0], State(), (b["path"],)):
            got = field(v, "value") if to in raw and k == "return" else v
            if to in ("usize", "u64", "u32", "i64", "i32", "u8"):
                ok = k == "return" and got[0] == "cast" and got[1] == "FloatToInt" and got[2] == x
            else:
                ok = k == "return" and got == x
            check.require(ok, "scalars", f"{last(to)}:from:{last(of)}", f"converting {last(of)} to {last(to)} changes the value", where(b))
            seen.add((of, to))
        check.analysed(I.analysed)
    check.require({("f64", N), (N, "f64"), ("bool", B), (B, "bool"), (N, "usize")} <= seen, "scalars found", "scalars:missing", "conversions of numbers or booleans are missing", "lib/ffi/src/number.rs")


def lists(check, crates, ffi):
    L = "pen_ffi::list::List"
    body = next((b for b in ffi.bodies if b.get("trait") == "core::convert::From" and b.get("self_ty") == L), None)
    if not check.require(body is not None, "lists found", "List:from:missing", "lists cannot be built from iterators", "lib/ffi/src/list.rs"):
        return
    for n in range(5):
        I = Interp(crates, policy=policy, models=buffer_models(), unroll=8)
        xs = [("sym", "x", i) for i in range(n)]
        for st, k, v in I.run(body, [seq("vec", xs)], State(), (body["path"],)):
            if k == "panic":
                continue
            got, ok = [], k == "return"
            while ok:
                if v[0] == "call" and last(v[2]) == "pen_ffi_list_prepend":
                    e = v[3][0]
                    while e[0] == "call" and last(e[2]) in ("into", "from") or e[0] == "pure" and last(e[1]) in ("into", "from"):
                        e = e[3][0] if e[0] == "call" else e[2][0]
                    got.append(e)
                    v = v[3][1]
                elif v[0] == "call" and last(v[2]) == "pen_ffi_list_create":
                    break
                else:
                    ok = False
            check.require(ok and got == xs, "lists keep order", "List:from:order", "a list built from an iterator does not hold exactly its elements in their order", where(body))
        check.analysed(I.analysed)
    for name, symbol, arguments, want in (("lazy", "pen_ffi_list_lazy", 1, (0,)), ("prepend", "pen_ffi_list_prepend", 2, (1, 0)), ("new", "pen_ffi_list_create", 0, ())):
        b = ffi.body(f"{L}::{name}")
        if b is None:
            continue
        I = Interp(crates, policy=policy, models=buffer_models())
        args = [("sym", "a", i) for i in range(arguments)]
        for st, k, v in I.run(b, args, State(), (b["path"],)):
            ok = k == "return" and v[0] == "call" and last(v[2]) == symbol and len(v[3]) == arguments
            for got, i in zip(v[3] if ok else (), want):
                while got[0] == "call" and last(got[2]) in ("into", "from"):
                    got = got[3][0]
                ok = ok and got == args[i]
            check.require(ok, "list operations", f"List:{name}", f"{name} of lists does not hand over its operands as they are", where(b))


def errors(check, crates, ffi):
    E = "pen_ffi::error::Error"
    b = ffi.body(f"{E}::new")
    if not check.require(b is not None, "errors found", "Error:new:missing", "errors cannot be made", "lib/ffi/src/error.rs"):
        return
    I = Interp(crates, policy=policy, models=buffer_models())
    x = ("sym", "x", 0)
    for st, k, v in I.run(b, [x], State(), (b["path"],)):
        p = next((field(t, "block") for t in subterms(v) if t[0] == "rec" and t[2] == ARC), None) if k == "return" else None
        content = st.mem.get(("P", p)) if p else None
        check.require(content is not None and contains(content, x), "errors keep their source", "Error:new", "an error does not keep its source", where(b))
    check.analysed(I.analysed)
    for b in ffi.bodies:
        if b.get("trait") == "core::convert::From" and b.get("self_ty") == E and b.get("generics"):
            I = Interp(crates, policy=policy, models=buffer_models())
            start = State()
            start.data.update(source=x, also=CHARACTER)
            for st, k, v in I.run(b, [x], start, (b["path"],)):
                if k != "return":
                    continue
                p = next((field(t, "block") for t in subterms(v) if t[0] == "rec" and t[2] == ARC), None)
                content = st.mem.get(("P", p), UNIT)
                string = buffer_of(content)
                ok = False
                if string == NULL:
                    ok = True  # decided with the conversion of strings
                elif string is not None:
                    _, copies, _ = written_bytes(I, st, string)
                    ok = len(copies) == 1 and source(I, st, copies[0][2], CHARACTER) in (x,)
                check.require(ok, "errors keep their source", "Error:from", "converting a Rust error does not keep its message", where(b))
            check.analysed(I.analysed)


# ---- A09: thread safety --------------------------------------------------------------------------------------------
REASONS = {
    "arc": "reference-counted blocks", "closure": "closures", "stack": "suspended computations", "any": "dynamically typed values", "opaque": "closures whose type is forgotten", "suspended": "suspended futures",
}


def threads(check):
    check.rule("witness programs named accept_* have to type-check, and those named reject_* have to be rejected by the type checker's trait rules (E0277, E0599)")
    results = facts.build_witnesses()
    for name in sorted(results):
        codes = results[name]
        kind, subject = name.split("_", 1)
        if kind == "accept":
            check.require(not codes, "accepted", f"accept:{subject}", f"{subject.replace('_', ' ')}: a value of the language which crosses threads freely is no longer accepted ({', '.join(codes)})", f"fixtures/witness/src/bin/{name}.rs")
        else:
            check.require(bool(set(codes) & {"E0277", "E0599"}), "rejected", f"reject:{subject}", f"{subject.replace('_', ' ')}: safe code can move {REASONS.get(subject.split('_')[0], 'a value')} holding something bound to one thread to another",
                          f"fixtures/witness/src/bin/{name}.rs")
            other = set(codes) - {"E0277", "E0599"}
            check.require(not other, "rejected for their types", f"reject:{subject}:reason", f"{subject.replace('_', ' ')} is rejected for another reason: {sorted(other)}", f"fixtures/witness/src/bin/{name}.rs")
    check.analysed(results)


# ---- A10: layouts --------------------------------------------------------------------------------------------------
P8 = ("ptr", 8, 8)
SCALARS = {"f64": ("f64", 8, 8), "bool": ("bool", 1, 1), "u64": ("int", 8, 8), "i64": ("int", 8, 8), "usize": ("int", 8, 8), "isize": ("int", 8, 8), "u8": ("byte", 1, 1), "i8": ("byte", 1, 1),
           "u32": ("int", 4, 4), "i32": ("int", 4, 4), "()": None}


class NoLayout(Exception):
    pass


def split_type(ty):
    """Name and arguments of a type."""
    ty = ty.strip()
    if "<" not in ty or not ty.endswith(">"):
        return ty, []
    name, rest = ty.split("<", 1)
    args, depth, current = [], 0, ""
    for ch in rest[:-1]:
        if ch == "," and not depth:
            args.append(current.strip())
            current = ""
            continue
        depth += ch in "<([" 
        depth -= ch in ">)]"
        current += ch
    return name, [a for a in args + [current.strip()] if a and not a.startswith("'")]


def words(crates, ty, subst=None, base=0):
    """The scalars a type consists of as [(offset, kind, pointee)], its size and alignment; refuses types whose layout Rust does not fix."""
    ty = ty.strip()
    if subst and ty in subst:
        return [(base, "param:" + ty, None)], 8, 8
    if ty in SCALARS:
        s = SCALARS[ty]
        return ([], 0, 1) if s is None else ([(base, s[0], None)], s[1], s[2])
    if ty.startswith(("&", "*const ", "*mut ")):
        inner = re.sub(r"^(&('\w+ )?(mut )?|\*const |\*mut )", "", ty)
        return [(base, "ptr", inner)], 8, 8
    if re.match(r"^(for<.*?> )?(unsafe )?(extern \"\w+\" )?fn\(", ty):
        return [(base, "fn", ty)], 8, 8
    if ty.startswith("[") and ty.endswith("; 0]"):
        return [], 0, 1
    name, args = split_type(ty)
    if name.startswith("core::sync::atomic::Atomic"):
        return words(crates, args[0] if args else "usize", subst, base)
    if name.startswith("core::marker::PhantomData"):
        return [], 0, 1
    if name in ("core::mem::manually_drop::ManuallyDrop", "core::cell::UnsafeCell", "core::mem::maybe_uninit::MaybeUninit"):
        return words(crates, args[0], subst, base)
    if name in ("core::ptr::non_null::NonNull", "alloc::boxed::Box"):
        return [(base, "ptr", args[0])], 8, 8
    if name == "core::option::Option" and args and (args[0].startswith(("&", "alloc::boxed::Box<", "core::ptr::non_null::NonNull<")) or "fn(" in args[0]):
        return words(crates, args[0], subst, base)
    adt = next((c.adts[name] for c in crates if name in c.adts), None)
    if adt is None or adt["kind"] != "struct":
        raise NoLayout(ty)
    fields = adt["variants"][0]["fields"]
    sized = [f for f in fields if words_or_none(crates, f["ty"], subst) not in (([], 0, 1),)]
    if not (adt["repr_c"] or adt["transparent"]):
        raise NoLayout(name)
    out, off, align = [], 0, 1
    parameters = generics_of(crates, name)
    inner = dict(zip(parameters, args)) if args else {}
    for f in fields:
        t = f["ty"]
        for g, a in inner.items():
            t = re.sub(rf"\b{g}\b", a, t)
        ws, size, al = words(crates, t, {g: 1 for g in parameters if g not in inner} or subst, 0)
        off = (off + al - 1) // al * al
        out += [(base + off + o, k, p) for o, k, p in ws]
        off += size
        align = max(align, al)
    return out, (off + align - 1) // align * align, align


def words_or_none(crates, ty, subst):
    try:
        return words(crates, ty, subst)
    except NoLayout:
        return None


def generics_of(crates, name):
    """Names of a type's parameters, as they occur in its fields."""
    adt = next((c.adts[name] for c in crates if name in c.adts), None)
    seen = []
    for f in adt["variants"][0]["fields"]:
        for g in re.findall(r"\b[A-Z]\w?\b", f["ty"]):
            if g not in seen:
                seen.append(g)
    return seen


def boxed(crates, ty):
    """What the block behind a handle holds."""
    name, args = split_type(ty)
    if name == ARC:
        return args[0]
    adt = next((c.adts[name] for c in crates if name in c.adts), None)
    if adt:
        for f in adt["variants"][0]["fields"]:
            inner = boxed(crates, f["ty"])
            if inner:
                return inner
    return None


# What compiled programs take each type to be (lib/mir-fmm: type_.rs, type_information.rs, closure.rs).
ANY_WORDS = [(0, "ptr"), (8, "int")]
PUBLIC = {
    "pen_ffi::number::Number": ([(0, "f64")], None), "pen_ffi::boolean::Boolean": ([(0, "bool")], None), "pen_ffi::none::None": ([], None),
    STRING: ([(0, "ptr")], None), BUFFER: ([(0, "ptr")], None), BLOCK: ([(0, "ptr")], None),
    "pen_ffi::any::Any": (ANY_WORDS, None), "pen_ffi::extra::result::Result": (ANY_WORDS, None),
    "pen_ffi::type_information::TypeInformation": ([(0, "fn"), (8, "fn"), (16, "fn"), (24, "ptr")], None),
    "pen_ffi::list::List": ([(0, "ptr")], [(0, "ptr")]), "pen_ffi::error::Error": ([(0, "ptr")], ANY_WORDS),
    "pen_ffi::closure::Closure": ([(0, "ptr")], [(0, "ptr"), (8, "ptr"), (16, "param")]),
    "pen_ffi::cps::stack::Stack": ([(0, "ptr"), (8, "int"), (16, "int")], None),
    "pen_ffi::future::stream::FirstRest": ([(0, "bool"), (8, "ptr"), (16, "ptr")], None),
    "pen_ffi::arc::arc_block::ArcInner": ([(0, "int")], None), "pen_ffi::arc::arc_buffer::ArcBufferInner": ([(0, "int"), (8, "byte")], None),
    "pen_ffi::closure::ClosureMetadata": ([(0, "fn"), (8, "fn")], None),
}
OPTIONAL = {"pen_ffi::arc::arc_block::ArcInner", "pen_ffi::arc::arc_buffer::ArcBufferInner"}


def layouts(check):
    F = facts.load("ffi")
    crates = list(F.values())
    ffi = F["pen_ffi"]
    check.rule("every type which compiled programs share with Rust is declared with a fixed representation, transitively, and consists of the scalars compiled programs expect at the offsets they expect; functions in tables use the C calling convention")
    check.rule("the constructors of shared types put each argument into the word that compiled programs take it from")

    def shape(ws):
        return [(o, "param" if k.startswith("param") else k) for o, k, _ in ws]
    for ty, (want, inside) in PUBLIC.items():
        adt = ffi.adts.get(ty)
        if adt is None:
            check.require(ty in OPTIONAL, "types found", f"{last(ty)}:missing", f"the type {last(ty)} is gone", "lib/ffi/src")
            continue
        at = f"{adt['file']}:{adt['line']}"
        try:
            ws, size, align = words(crates, ty, {g: 1 for g in generics_of(crates, ty)})
            check.require(shape(ws) == want, "layouts", f"{last(ty)}:layout", f"{last(ty)} is laid out as {shape(ws)}, but compiled programs expect {want}", at)
            if "size" in adt:
                check.require(adt["size"] == size and adt["align"] == align, "sizes", f"{last(ty)}:size", f"{last(ty)} takes {adt['size']} bytes instead of {size}", at)
            for o, k, p in ws:
                if k == "fn":
                    check.require('extern "C"' in p, "conventions", f"{last(ty)}:{o}:convention", f"a function in {last(ty)} does not use the C calling convention", at)
            if inside is not None:
                inner = boxed(crates, ty)
                if not check.require(inner is not None, "handles", f"{last(ty)}:handle", f"{last(ty)} is no longer a handle of a block", at):
                    continue
                name, args = split_type(inner)
                if name in ffi.adts:
                    ws, _, _ = words(crates, name, {g: 1 for g in generics_of(crates, name)})
                    check.require(shape(ws) == inside, "contents", f"{last(ty)}:contents", f"the block behind {last(ty)} is laid out as {shape(ws)}, but compiled programs expect {inside}", at)
                else:
                    ws, _, _ = words(crates, inner, {g: 1 for g in generics_of(crates, ty)})
                    check.require(shape(ws) == inside, "contents", f"{last(ty)}:contents", f"the block behind {last(ty)} is laid out as {shape(ws)}, but compiled programs expect {inside}", at)
        except NoLayout as e:
            check.violation(f"{last(ty)}:representation", f"{last(ty)} contains {e}, whose layout Rust does not fix", at)
        check.analysed([ty])
    # A suspended computation is handed over as its stack.
    adt = ffi.adts["pen_ffi::cps::async_stack::AsyncStack"]
    first = adt["variants"][0]["fields"][0]
    check.require(adt["repr_c"] and first["ty"] == "pen_ffi::cps::stack::Stack", "layouts", "AsyncStack:layout", "a suspended computation does not begin with its stack", f"{adt['file']}:{adt['line']}")
    constructors(check, crates, ffi)


def by_offset(crates, value, base=0):
    """A record value's scalars by offset."""
    if value[0] != "rec":
        return {base: value}
    adt = next((c.adts[value[2]] for c in crates if value[2] in c.adts), None)
    if adt is None:
        if value[2] in ("core::mem::manually_drop::ManuallyDrop",):
            return by_offset(crates, value[4][0][1], base)
        return {base: value}
    out, off = {}, 0
    fields = dict(value[4])
    gs = {g: 1 for g in generics_of(crates, value[2])}
    for f in adt["variants"][0]["fields"]:
        ws, size, al = words(crates, f["ty"], gs)
        off = (off + al - 1) // al * al
        if f["name"] in fields and size:
            out.update(by_offset(crates, fields[f["name"]], base + off))
        off += size
    return out


def atomic(v):
    while v[0] in ("call", "pure") and last(v[2] if v[0] == "call" else v[1]) in ("new", "from", "cast", "cast_mut", "cast_const") or v[0] == "cast":
        v = v[2] if v[0] == "cast" else (v[3] if v[0] == "call" else v[2])[0]
    return v


def constructors(check, crates, ffi):
    x, y, z = (("sym", n, 0) for n in "xyz")

    def run(path, args):
        b = ffi.body(path)
        if not check.require(b is not None, "constructors found", f"{path}:missing", f"the constructor {path} is gone", "lib/ffi/src"):
            return
        I = Interp(crates, policy=policy, models=buffer_models())
        for st, k, v in I.run(b, args, State(), (b["path"],)):
            if k == "return":
                yield st, v, b
        check.analysed(I.analysed)
    for st, v, b in run("pen_ffi::any::Any::new", [x, y]):
        check.require(by_offset(crates, v) == {0: x, 8: y}, "constructors", "Any:new", "a dynamically typed value does not consist of its type and its payload", where(b))
    for st, v, b in run("pen_ffi::type_information::TypeInformation::new", [x, y, z]):
        got = by_offset(crates, v)
        check.require([got.get(i) for i in (0, 8, 16)] == [x, y, z], "constructors", "TypeInformation:new", "a type's table does not hold clone, drop and synchronize in this order", where(b))
    for st, v, b in run("pen_ffi::cps::stack::Stack::new", [x]):
        got = by_offset(crates, v)
        check.require(atomic(got.get(8, UNIT)) == integer(0, "usize") and contains(got.get(16, UNIT), x) and not contains(got.get(0, UNIT), integer(0, "usize")), "constructors", "Stack:new",
                      "a stack does not consist of its base, its size and its capacity in this order", where(b))
    for st, v, b in run("pen_ffi::closure::Closure::<T>::new", [x, y]):
        p = next((field(t, "block") for t in subterms(v) if t[0] == "rec" and t[2] == ARC), None)
        content = st.mem.get(("P", p)) if p else None
        got = by_offset(crates, content) if content else {}
        check.require(atomic(got.get(0, UNIT)) == x and got.get(16) == y, "constructors", "Closure:new", "a closure's block does not hold its entry function first and its payload third", where(b))


# ---- A11: closures -------------------------------------------------------------------------------------------------
def closures(check):
    F = facts.load("ffi")
    crates = list(F.values())
    ffi = F["pen_ffi"]
    check.rule("a closure made in Rust has one block holding its entry function, a table that lives as long as the program, and its payload, moved in and never dropped by the maker")
    check.rule("the table's first function destroys exactly the payload, once; dropping a block's contents calls the first function of the table it holds, once, with the contents, and destroys nothing itself; reading accessors give what was put in and change nothing")
    x, y = ("sym", "entry", 0), ("sym", "payload", 0)
    C, INNER = "pen_ffi::closure::Closure", "pen_ffi::closure::ClosureInner"

    def interp():
        return Interp(crates, policy=policy, models=buffer_models())
    b = ffi.body(f"{C}::<T>::new")
    if not check.require(b is not None, "closures found", "Closure:new:missing", "closures cannot be made", "lib/ffi/src/closure.rs"):
        return
    I = interp()
    n = 0
    for st, k, v in I.run(b, [x, y], State(), (b["path"],)):
        if k != "return":
            continue
        n += 1
        blocks = [e for e in st.events if e[0] == "block"]
        p = next((field(t, "block") for t in subterms(v) if t[0] == "rec" and t[2] == ARC), None)
        content = st.mem.get(("P", p), UNIT)
        check.require(len(blocks) == 1 and p == blocks[0][1]["pointer"], "one block", "Closure:new:block", "a closure is not one block", where(b))
        got = by_offset(crates, content)
        check.require(atomic(got.get(0, UNIT)) == x, "entries", "Closure:new:entry", "a closure does not keep its entry function", where(b))
        inner = content if content[0] == "rec" else UNIT
        kept = [t for t in subterms(inner) if t[0] == "rec" and t[2] == "core::mem::manually_drop::ManuallyDrop" and field(t, "value") == y]
        check.require(len(kept) == 1 and got.get(16) == y, "payloads", "Closure:new:payload", "a closure does not keep its payload for its table to destroy", where(b))
        dropped = [e for e in st.events if e[0] == "drop" and contains(I.load(st, e[1]["place"]), y)]
        check.require(not dropped, "payloads", "Closure:new:drops", "making a closure destroys its payload", where(b))
        table = atomic(got.get(8, UNIT))
        if not check.require(table[0] == "ref" and table[1][0][0] == "S", "tables", "Closure:new:table", "a closure's table does not live as long as the closure", where(b)):
            continue
        metadata = I.load(st, table[1])
        slots = by_offset(crates, metadata)
        drop = atomic(slots.get(0, UNIT))
        if check.require(drop[0] == "fn" and drop[1] in I.bodies, "tables", "Closure:table", "a closure's table does not begin with its destructor", where(b)):
            destructor(check, crates, I.bodies[drop[1]])
        synchronize = atomic(slots.get(8, UNIT))
        if check.require(synchronize[0] == "fn" and synchronize[1] in I.bodies, "tables", "Closure:table:synchronize", "a closure's table lacks its synchronization function", where(b)):
            J = interp()
            body = I.bodies[synchronize[1]]
            for s, kk, vv in J.run(body, [("ref", (("P", ("sym", "inner", 0)), ()))], State(), (body["path"],)):
                check.require(kk == "return" and not [e for e in s.events if e[0] == "drop" or e[0] == "store" and e[1]["place"][0][0] == "P"], "tables", "Closure:synchronize", "marking a closure as shared changes or destroys it", where(body))
    check.require(n, "closures", "Closure:new:never", "making a closure never returns", where(b))
    check.analysed(I.analysed)
    glue(check, crates, ffi, INNER)
    accessors(check, crates, ffi, C, INNER)


def destructor(check, crates, body):
    I = Interp(crates, policy=policy, models=buffer_models())
    inner = ("P", ("sym", "inner", 0))
    for st, k, v in I.run(body, [("ref", (inner, ()))], State(), (body["path"],)):
        dropped = [e[1] for e in st.events if e[0] == "drop" and e[1]["place"][0] == inner]
        dropped += [e[1] for e in st.events if e[0] == "call" and last(e[1]["def_"]) == "drop_in_place" and e[1]["args"] and e[1]["args"][0][0] == "ref" and e[1]["args"][0][1][0] == inner]
        # ... or takes it out and drops that.
        taken = [e for e in calls(st) if last(e["def_"]) in ("take", "into_inner", "read") and e["args"] and e["args"][0][0] == "ref" and e["args"][0][1][0] == inner]
        out = [e for e in st.events if e[0] == "drop" and any(I.load(st, e[1]["place"]) == t["result"] for t in taken)]
        if len(taken) == len(out) == 1:
            dropped = dropped + taken
        for e in st.events:
            v = I.load(st, e[1]["place"]) if e[0] == "drop" and e[1]["place"][0][0] != "P" else e[1]["args"][0] if e[0] == "call" and e[1]["def_"] == "core::mem::drop" else UNIT
            if v[0] == "fld" and field(field(("init", inner), "payload"), "value") == v or v == field(("init", inner), "payload"):
                dropped = dropped + [{"place": (inner, (("f", "payload", ""),))}]
        places = [e["place"] if "place" in e else e["args"][0][1] for e in dropped]
        check.require(k == "return" and len(dropped) == 1 and any(p[1] == "payload" for p in places[0][1][:1]), "destructors", "Closure:drop", "a closure's destructor does not destroy exactly its payload, once", where(body))
    check.analysed(I.analysed)


def glue(check, crates, ffi, INNER):
    body = next((b for b in ffi.bodies if b.get("trait") == "core::ops::drop::Drop" and (b.get("self_ty") or "").startswith(INNER)), None)
    if not check.require(body is not None, "destructors", "Closure:drop:missing", "dropping the last handle of a closure does not call its destructor", "lib/ffi/src/closure.rs"):
        return
    I = Interp(crates, policy=policy, models=buffer_models())
    self_ = ("ref", (("P", ("sym", "inner", 0)), ()))
    first = ffi.adts["pen_ffi::closure::ClosureMetadata"]["variants"][0]["fields"][0]["name"]
    for st, k, v in I.run(body, [self_], State(), (body["path"],)):
        through = [e for e in calls(st) if not e["def_"] and e["f"][0] != "fn"]
        ok = k == "return" and len(through) == 1 and I.deref(through[0]["args"][0]) == self_[1]
        if ok:
            f = through[0]["f"]
            ok = f[0] == "fld" and f[2] == first and any(t[0] == "call" and last(t[2]) == "load" and t[3][0][0] == "ref" and t[3][0][1][1][-1:] and t[3][0][1][1][-1][1] == "metadata" for t in subterms(f))
        check.require(ok, "destructors", "Closure:drop:glue", "dropping a closure's contents does not call the destructor of its table exactly once with them", where(body))
    check.analysed(I.analysed)
    # The payload's own destructor must not run besides: it is only ever kept in a wrapper without one.
    fields = {f["name"]: f["ty"] for f in ffi.adts[INNER]["variants"][0]["fields"]}
    check.require(not [n for n, t in fields.items() if re.fullmatch(r"[A-Z]\w?", t)], "destructors", "Closure:payload:glue", "a closure's payload is destroyed by its block besides its table's destructor", "lib/ffi/src/closure.rs")


def accessors(check, crates, ffi, C, INNER):
    handle = ("sym", "handle", 0)
    block = ("sym", "block", 0)
    value = rec(C, None, [("0", rec(ARC, None, [("block", block), ("phantom", UNIT)]))])
    place = ("P", handle)
    for name in ("entry_function", "payload", "into_opaque"):
        b = ffi.body(f"{C}::<T>::{name}")
        if not check.require(b is not None, "accessors found", f"Closure:{name}:missing", f"closures lack {name}", "lib/ffi/src/closure.rs"):
            continue
        I = Interp(crates, policy=policy, models=buffer_models())
        st0 = State()
        st0.mem[place] = value
        for st, k, v in I.run(b, [value if name == "into_opaque" else ("ref", (place, ()))], st0, (b["path"],)):
            ok = k == "return"
            if name == "entry_function":
                w = v
                while w[0] == "cast":
                    w = w[2]
                ok = ok and w[0] == "call" and last(w[2]) == "load" and w[3][0][0] == "ref" and w[3][0][1] == (("P", block), (("f", "entry_function", INNER),))
            elif name == "payload":
                ok = ok and v[0] == "ref" and v[1][0] == ("P", block) and v[1][1][:1] == (("f", "payload", INNER),) and all(p[1] == "value" for p in v[1][1][1:])
            else:
                w = v
                while w[0] == "cast" or w[0] in ("call", "pure") and last(w[2] if w[0] == "call" else w[1]) in ("transmute", "transmute_copy", "read"):
                    w = w[2] if w[0] == "cast" else (w[3] if w[0] == "call" else w[2])[0]
                    if w[0] == "ref":
                        w = I.load(st, w[1])
                ok = ok and (w == value or contains(w, block)) and not [e for e in st.events if e[0] == "drop" and contains(I.load(st, e[1]["place"]), block)]
            ok = ok and not [e for e in st.events if e[0] == "store" and e[1]["place"][0][0] == "P" and e[1]["place"][0] != place]
            check.require(ok, "accessors", f"Closure:{name}", f"{name} of a closure does not give what the closure was made of", where(b))
        check.analysed(I.analysed)
