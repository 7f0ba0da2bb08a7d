"""Dynamically typed values (Any), closures and byte strings at the foreign function border."""
from absint import *
import facts

ANY, INFO = "pen_ffi::any::Any", "pen_ffi::type_information::TypeInformation"
SLOTS = {"clone": 0, "drop": 8, "synchronize": 16}
# The names under which compiled Pen programs define the conversions, per type.
NAMES = {"pen_ffi::boolean::Boolean": "boolean", "pen_ffi::error::Error": "error", "pen_ffi::list::List": "list", "pen_ffi::none::None": "none",
         "pen_ffi::number::Number": "number", "pen_ffi::string::ByteString": "string"}
A = ("sym", "argument", 0)


def opaque_blocks(name, body, stack):
    """Reference-counted blocks are the business of their own property."""
    return not body["path"].startswith(("pen_ffi::arc::", "<pen_ffi::arc::"))


def no_drop(name, body, stack):
    return opaque_blocks(name, body, stack) and body.get("trait") != "core::ops::drop::Drop"


def where(body):
    return f"{body['file']}:{body['line']}"


def field_at(crate, adt, offset):
    a = crate.adts[adt]
    for f, o in zip(a["variants"][0]["fields"], a.get("offsets", [])):
        if o == offset:
            return f["name"]
    return None


def last(path):
    return (path or "").split("::")[-1]


def reaches(st, term, target, seen=None):
    """Does the value contain the target, also behind references to the analysed functions' own variables?"""
    seen = set() if seen is None else seen
    for t in subterms(term):
        if t == target:
            return True
        if t[0] == "ref" and t[1] not in seen:
            seen.add(t[1])
            root, _ = t[1]
            if root in st.mem and reaches(st, st.mem[root], target, seen):
                return True
            if root[0] == "P" and reaches(st, root[1], target, seen):
                return True
    return False


def returns_of(check, I, body, args, kinds=("return",)):
    traces = I.run(body, args, State(), (body["path"],))
    check.analysed(I.analysed)
    check.ok("traces", len(traces))
    return [x for x in traces if x[1] in kinds]


def calls(st):
    return [e for k, e in st.events if k == "call"]


def drops(st, value):
    return [e for k, e in st.events if k == "drop" and e["value"] == value]


def values(check):
    F = facts.load("ffi")
    crates = list(F.values())
    ffi, fixture = F["pen_ffi"], F["pen_ffi_fixture"]
    check.rule("cloning calls the clone slot of the value's own type on its payload and dropping calls its drop slot, each once")
    check.rule("a payload is reinterpreted as a type only after the type test succeeded; failed conversions destroy the value, successful ones move it")
    check.rule("the clone, drop and conversion functions the derive macro generates neither duplicate nor lose ownership")
    layout(check, ffi)
    handle(check, crates, ffi)
    builtin(check, crates, ffi)
    derived(check, crates, fixture)
    results(check, crates, ffi)
    sizes(check)


def layout(check, ffi):
    want = {ANY: {0: None, 8: "u64"}, INFO: {0: None, 8: None, 16: None}}
    a = ffi.adts.get(ANY)
    check.require(a and a.get("size") == 16 and a.get("offsets", [])[:2] and sorted(a["offsets"]) == [0, 8] and a["repr_c"], "values are two words", "Any:layout",
                  "a dynamically typed value is no longer its type followed by its payload", "lib/ffi/src/any.rs")
    b = ffi.adts.get(INFO)
    check.require(b and sorted(b.get("offsets", []))[:3] == [0, 8, 16] and b["repr_c"], "type information starts with three functions", "TypeInformation:layout",
                  "type information no longer starts with its clone, drop and synchronize functions", "lib/ffi/src/type_information.rs")
    body = ffi.body("pen_ffi::type_information::TypeInformation::new")
    I = Interp([ffi])
    args = [("sym", n, 0) for n in SLOTS]
    for st, _, v in returns_of(check, I, body, args):
        for (n, o), a in zip(SLOTS.items(), args):
            check.require(field(v, field_at(ffi, INFO, o)) == a, "type information slots", f"TypeInformation:new:{n}", f"the {n} function is stored in the wrong slot of type information", where(body))


def handle(check, crates, ffi):
    I = Interp(crates, policy=opaque_blocks)
    info, payload = field_at(ffi, ANY, 0), field_at(ffi, ANY, 8)
    value = rec(ANY, None, [(info, ("sym", "type", 0)), (payload, ("sym", "payload", 0))])
    for trait, slot in (("core::clone::Clone", "clone"), ("core::ops::drop::Drop", "drop")):
        found = [b for b in ffi.bodies if b.get("trait") == trait and b.get("self_ty") == ANY and b["path"].endswith("::" + slot)]
        if not check.require(found, "values are cloned and dropped by their type", f"Any:{slot}:missing", f"values no longer implement {slot}", "lib/ffi/src/any.rs"):
            continue
        body = found[0]
        st = State()
        st.mem[("H", "any")] = value
        traces = I.run(body, [("ref", (("H", "any"), ()))], st, (body["path"],))
        check.analysed(I.analysed)
        for st, kind, v in traces:
            if kind != "return":
                continue
            indirect = [e for e in calls(st) if e["def_"] is None]
            want = field(("init", ("P", ("sym", "type", 0))), field_at(ffi, INFO, SLOTS[slot]))
            ok = len(indirect) == 1 and indirect[0]["f"] == want and indirect[0]["args"] == [("sym", "payload", 0)]
            check.require(ok, f"{slot} goes through the type's own function", f"Any:{slot}:slot", f"{slot} of a value does not call its type's {slot} function exactly once on its payload", where(body))
            if slot == "clone" and ok:
                check.require(field(v, info) == ("sym", "type", 0) and field(v, payload) == indirect[0]["result"], "a clone has the type and the cloned payload", "Any:clone:result",
                              "a cloned value does not consist of the original's type and the cloned payload", where(body))


def builtin(check, crates, ffi):
    seen = set()
    for body in ffi.bodies:
        if body.get("trait") == "core::convert::TryFrom" and body.get("trait_args", [None])[-1] == ANY and body["path"].endswith("::try_from"):
            target = body["self_ty"]
            name = NAMES.get(target)
            if name is None:
                continue
            seen.add(name)
            for st, _, v in returns_of(check, Interp(crates, policy=no_drop), body, [A]):
                tests = [e for e in calls(st) if last(e["def_"]).startswith("pen_ffi_any_is_")]
                casts = [e for e in calls(st) if last(e["def_"]).startswith("pen_ffi_any_to_")]
                right = [e for e in tests if last(e["def_"]) == f"pen_ffi_any_is_{name}" and reaches(st, e["args"][0], field(A, field_at(ffi, ANY, 8)))]
                outcome = v[3] if v[0] == "rec" else None
                truth = [n for t, n, _ in st.conds if any(contains(t, e["result"]) for e in right)]
                holds = truth and all(n != 0 for n in truth)
                if outcome == "Ok":
                    check.require(holds, "conversions test the type", f"try_from:{name}:test", f"a value is converted to {name} without its type having been tested to be {name}", where(body))
                    check.require([last(e["def_"]) for e in casts] == [f"pen_ffi_any_to_{name}"] and casts[0]["args"] == [A] and field(v, "0") == casts[0]["result"], "conversions move the value",
                                  f"try_from:{name}:convert", f"a successful conversion to {name} does not hand over the converted value", where(body))
                    check.require(not drops(st, A), "converted values are moved", f"try_from:{name}:drop", f"a value converted to {name} is destroyed as well", where(body))
                elif outcome == "Err":
                    check.require(truth and not holds, "conversions accept their type", f"try_from:{name}:refuse", f"a value is refused although its type was not found to differ from {name}", where(body))
                    check.require(not casts, "refused values are not converted", f"try_from:{name}:cast", f"a value is reinterpreted as {name} although it is not", where(body))
                    check.require(len(drops(st, A)) == 1, "refused values are destroyed", f"try_from:{name}:leak", f"a value refused by the conversion to {name} is not destroyed exactly once", where(body))
                else:
                    check.violation(f"try_from:{name}:result", f"the result of the conversion to {name} cannot be decided", where(body))
        if body["path"].startswith("pen_ffi::any::Any::is_"):
            name = last(body["path"])[3:]
            for st, _, v in returns_of(check, Interp(crates, policy=no_drop), body, [A]):
                tests = [e for e in calls(st) if last(e["def_"]).startswith("pen_ffi_any_is_")]
                check.require([last(e["def_"]) for e in tests] == [f"pen_ffi_any_is_{name}"] and contains(v, tests[0]["result"]), "type tests", f"is:{name}",
                              f"the {name} type test does not report whether the value is of that type", where(body))
                check.require(not [t for t in subterms(v) if t[0] == "un" and t[1] == "Not"], "type tests", f"is:{name}:negated", f"the {name} type test is negated", where(body))
        if body.get("trait") == "core::convert::From" and body.get("self_ty") == ANY:
            name = NAMES.get(body["trait_args"][-1])
            if name is None:
                continue
            for st, _, v in returns_of(check, Interp(crates, policy=no_drop), body, [A]):
                conversions = calls(st)
                ok = len(conversions) == 1 and last(conversions[0]["def_"]) == f"pen_ffi_{name}_to_any" and conversions[0]["args"] == [A] and v == conversions[0]["result"]
                check.require(ok and not drops(st, A), "conversions to values", f"into:{name}", f"a {name} is not converted to a value by its own conversion function, exactly once", where(body))
    for n in NAMES.values():
        if n != "none":
            check.require(n in seen, "every primitive type converts back", f"try_from:{n}:missing", f"the conversion of values to {n} is gone", "lib/ffi/src/any.rs")


def derived(check, crates, fixture):
    """What the derive macro generates, on the fixture's types."""
    ffi_adts = {p: a for c in crates for p, a in c.adts.items()}
    types = [p for p in fixture.adts if fixture.adts[p]["kind"] == "struct" and any(b.get("trait") == "core::convert::From" and b.get("self_ty") == ANY and b["trait_args"][-1] == p for b in fixture.bodies)]
    check.require(len(types) >= 2, "derived types", "derive:types", "the derive macro no longer makes types convertible to values", "lib/ffi-macro/src/any.rs")
    statics = {}
    for ty in types:
        key = last(ty)

        def policy(name, body, stack):
            return no_drop(name, body, stack) and not (body.get("trait") == "core::clone::Clone" and body.get("self_ty") == ty)

        into = next(b for b in fixture.bodies if b.get("trait") == "core::convert::From" and b.get("self_ty") == ANY and b["trait_args"][-1] == ty)
        info = None
        for st, _, v in returns_of(check, Interp(crates, policy=policy), into, [A]):
            t = field(v, "type_information")
            info = t[1][0][1] if t[0] == "ref" and t[1][0][0] == "S" else None
            payload = next((x for n, x in v[4] if n != "type_information"), None) if v[0] == "rec" else None
            check.require(info and payload == A and not drops(st, A), "values carry their type and payload", "derive:into", "converting a derived type to a value does not move it into a value of its own type", where(into))
        if info is None:
            continue
        check.require(info not in statics, "each type has its own type information", "derive:identity", "two types share type information", where(into))
        statics[info] = ty
        static = fixture.body(info)
        I = Interp(crates, policy=policy)
        for st, _, v in returns_of(check, I, static, []):
            for slot, offset in SLOTS.items():
                a = ffi_adts[INFO]
                f = next(f["name"] for f, o in zip(a["variants"][0]["fields"], a["offsets"]) if o == offset)
                function = field(v, f)
                body = I.resolve({"crate": fixture}, function) if function[0] == "fn" else None
                if not check.require(body, "type information functions", f"derive:{slot}:function", f"the {slot} function of a derived type cannot be determined", where(static)):
                    continue
                for st, _, v2 in returns_of(check, Interp(crates, policy=policy), body, [A]):
                    gone = [e for e in drops(st, A) if e["ty"] == ty]
                    others = [e for e in drops(st, A) if e["ty"] != ty]
                    if slot == "clone":
                        clones = [e for e in calls(st) if last(e["def_"]) == "clone" and e["f"][4].endswith("Clone::clone")]
                        ok = len(clones) == 1 and clones[0]["args"][0][0] == "ref" and I.load(st, clones[0]["args"][0][1]) == A and v2 == clones[0]["result"]
                        check.require(ok, "cloning payloads", "derive:clone:clone", "the clone function of a derived type does not return a clone of the payload", where(body))
                        check.require(not drops(st, A), "cloning keeps the original", "derive:clone:drop", "the clone function of a derived type destroys the original", where(body))
                    elif slot == "drop":
                        check.require(len(gone) == 1 and not others, "dropping payloads", "derive:drop", "the drop function of a derived type does not destroy the payload exactly once", where(body))
                    else:
                        check.require(not drops(st, A), "sharing keeps payloads", "derive:synchronize", "marking a value as shared destroys it", where(body))
        for b in fixture.bodies:
            if b.get("trait") == "core::convert::TryFrom" and b["path"].endswith("::try_from") and parse_type(b["self_ty"])[0] in ("&", "&mut", ty):
                head = parse_type(b["self_ty"])
                if (head[1][0][0] if head[0] in ("&", "&mut") else head[0]) != ty:
                    continue
                borrowed = head[0] in ("&", "&mut")
                args = [("ref", (("H", "any"), ()))] if borrowed else [A]
                st0 = State()
                st0.mem[("H", "any")] = A
                I = Interp(crates, policy=policy)
                traces = [x for x in I.run(b, args, st0, (b["path"],)) if x[1] == "return"]
                check.analysed(I.analysed)
                kind = {"&": "borrow", "&mut": "mutable borrow"}.get(head[0], "move")
                found = set()
                for st, _, v in traces:
                    outcome = v[3] if v[0] == "rec" else None
                    found.add(outcome)
                    same = identity(I, st, ("ref", (("S", info), ())))
                    if outcome == "Ok":
                        x = field(v, "0")
                        check.require(same is True, "reinterpretation follows the identity test", f"derive:try_from:{kind}:test", f"a value's payload is reinterpreted ({kind}) without its type having been identified", where(b))
                        if borrowed:
                            ok = x[0] == "ref" and x[1] == (("H", "any"), (("f", "payload", ANY),))
                            check.require(ok, "borrows refer to the payload", f"derive:try_from:{kind}:payload", f"a successful conversion ({kind}) does not refer to the value's payload", where(b))
                        else:
                            check.require(x == field(A, "payload"), "moves hand over the payload", "derive:try_from:move:payload", "a successful conversion does not hand over the payload", where(b))
                            check.require(not drops(st, A), "moved payloads are not destroyed", "derive:try_from:move:drop", "a converted value is destroyed as well as handed over", where(b))
                    elif outcome == "Err":
                        check.require(same is False, "values of the type are accepted", f"derive:try_from:{kind}:refuse", f"a value of the type is refused ({kind})", where(b))
                        if not borrowed:
                            check.require(len(drops(st, A)) == 1, "refused values are destroyed", "derive:try_from:move:leak", "a refused value is not destroyed", where(b))
                    else:
                        check.violation(f"derive:try_from:{kind}:result", "the result of a conversion cannot be decided", where(b))
                check.require({"Ok", "Err"} <= found, "both outcomes exist", f"derive:try_from:{kind}:outcomes", f"a conversion ({kind}) has only one outcome", where(b))


def identity(I, st, info):
    """Whether the trace established that the value's type information is (True) or is not (False) the given static."""
    for t, n, _ in st.conds:
        for u in subterms(t):
            sides = None
            if u[0] == "call" and u[2] in ("core::ptr::eq", "core::ptr::addr_eq"):
                sides = u[3]
            elif u[0] == "op" and u[1] in ("Eq", "Ne"):
                sides = u[2:4]
            if sides:
                bases = [I.address(x)[0] for x in sides]
                if I.address(info)[0] in bases and any(contains(x, ("fld", A, "type_information")) or x == ("fld", A, "type_information") for x in bases):
                    truth = n != 0
                    if u[0] == "op" and u[1] == "Ne":
                        truth = not truth
                    if t[0] == "un" and t[1] == "Not":
                        truth = not truth
                    return truth
    return None


def results(check, crates, ffi):
    """Results become their value, or an error which carries the failure."""
    n = 0
    for body in ffi.bodies:
        if body.get("trait") == "core::convert::From" and body.get("self_ty") == "pen_ffi::extra::result::Result":
            n += 1
            source = body["trait_args"][-1]
            I = Interp(crates, policy=no_drop)
            for st, _, v in returns_of(check, I, body, [A]):
                d = I.interval(st, ("discr", A))
                errors = [e for e in calls(st) if last(e["def_"]) == "pen_ffi_error_to_any"]
                if d == (1, 1):
                    check.require(len(errors) == 1 and contains(v, errors[0]["result"]), "failures become errors", f"result:{source}:error", f"a failure of {source} is not returned as an error", where(body))
                    if errors:
                        made = errors[0]["args"][0]
                        fate = carries(I, st, errors[0]["args"][0], ("fld", A, "0"))
                        check.require(fate, "errors carry the failure", f"result:{source}:source", f"the error made of a failure of {source} does not carry it", where(body))
                elif d == (0, 0):
                    check.require(not errors, "values are not errors", f"result:{source}:value", f"a success of {source} is returned as an error", where(body))
                    unit = parse_type(source)[1][0] == ("()", ())
                    made = [e for e in calls(st) if last(e["def_"]) == "pen_ffi_none_to_any"]
                    if unit:
                        check.require(made and contains(v, made[0]["result"]), "successes are returned", f"result:{source}:unit", f"a success of {source} is not returned as none", where(body))
                    else:
                        check.require(reaches(st, v, ("fld", A, "0")), "successes are returned", f"result:{source}:lost", f"the value of a success of {source} is lost", where(body))
                else:
                    check.violation(f"result:{source}:undecided", f"the conversion of {source} does not tell success from failure", where(body))
    check.require(n >= 2, "results convert", "result:missing", "results no longer convert to values", "lib/ffi/src/extra/result.rs")


def carries(I, st, value, target, seen=None):
    """Is the target part of the value, of what references in it refer to, or of what the calls that made it were given?"""
    seen = set() if seen is None else seen
    todo = [value]
    while todo:
        for t in subterms(todo.pop()):
            if t == target:
                return True
            if t in seen:
                continue
            seen.add(t)
            if t[0] == "ref":
                root, _ = t[1]
                todo.append(st.mem.get(root, UNIT))
                if root[0] == "P":
                    todo.append(root[1])
    return False


def sizes(check):
    """A payload is one word: every type stored in one must fit."""
    for g in facts.groups():
        if not g.startswith("pkg:"):
            continue
        for c in facts.load(g).values():
            stored = set()
            for b in c.bodies:
                if b.get("trait") == "core::convert::From" and (b.get("self_ty") or "").endswith("::Any") and b.get("trait_args"):
                    stored.add(b["trait_args"][-1])
            for t in stored:
                a = c.adts.get(t)
                if a and "size" in a:
                    check.require(a["size"] <= 8 and a.get("align", 8) <= 8, "payloads fit", f"size:{t}", f"{t} takes {a['size']} bytes and is stored in a payload of 8", a.get("file", ""))
