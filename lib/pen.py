"""Declarations in package sources of the language: types, and foreign functions in either direction."""
import os, re

TOKEN = re.compile(r'\s*(?:#[^\n]*|("[^"]*")|(\w+(?:\'\w+)*|(?:\'\w+)+)|(\.\.\.|[\\(){}\[\],|:=?!<>+\-*/&.]))')


def tokens(text):
    """(token, line) pairs, without comments."""
    out, at = [], 0
    while at < len(text):
        m = TOKEN.match(text, at)
        if not m:
            at += 1
            continue
        t = m.group(1) or m.group(2) or m.group(3)
        if t:
            out.append((t, text.count("\n", 0, m.start(m.lastindex)) + 1))
        at = m.end() if m.end() > at else at + 1
    return out


class Module:
    def __init__(self, path, text):
        self.path, self.types, self.imports, self.exports, self.names, self.modules = path, {}, [], [], {}, {}
        self.ts, self.i = tokens(text), 0
        while self.i < len(self.ts):
            t = self.next()
            if t == "import":
                self.import_()
            elif t == "type":
                self.type_definition()
            elif t == "foreign":
                self.export()
            elif t in ("{", "(", "["):
                self.skip({"{": "}", "(": ")", "[": "]"}[t])

    def peek(self, n=0):
        return self.ts[self.i + n][0] if self.i + n < len(self.ts) else None

    def next(self):
        self.i += 1
        return self.ts[self.i - 1][0]

    def line(self):
        return self.ts[min(self.i, len(self.ts)) - 1][1]

    def skip(self, end):
        while self.i < len(self.ts):
            t = self.next()
            if t == end:
                return
            if t in "{([":
                self.skip({"{": "}", "(": ")", "[": "]"}[t])

    def import_(self):
        if self.peek() == "foreign":
            self.next()
            convention = self.next() if self.peek()[0] == '"' else None
            line, name = self.line(), self.next()
            self.imports.append((name, convention, self.type_(), line))
            return
        path = self.next()
        short = path.split("'")[-1]
        if self.peek() == "as":
            self.next()
            short = self.next()
        self.modules.setdefault(short, []).append(path)
        if self.peek() == "{":
            self.next()
            while self.peek() != "}":
                n = self.next()
                if n != ",":
                    self.names[n] = path
            self.next()

    def type_definition(self):
        name = self.next()
        if self.peek() == "=":
            self.next()
            self.types[name] = ("alias", self.type_())
        else:
            self.next()
            fields = []
            while self.peek() != "}":
                n = self.next()
                fields.append((n, self.type_()))
            self.next()
            self.types[name] = ("record", fields)

    def export(self):
        convention = self.next() if self.peek()[0] == '"' else None
        line, name = self.line(), self.next()
        assert self.next() == "=" and self.next() == "\\", (self.path, name)
        self.next()
        arguments = []
        while self.peek() != ")":
            self.next()
            arguments.append(self.type_())
            if self.peek() == ",":
                self.next()
        self.next()
        self.exports.append((name, convention, ("function", arguments, self.type_()), line))

    def type_(self):
        ts = [self.atom()]
        while self.peek() == "|":
            self.next()
            ts.append(self.atom())
        return ts[0] if len(ts) == 1 else ("union", ts)

    def atom(self):
        t = self.next()
        if t == "\\":
            self.next()
            arguments = []
            while self.peek() != ")":
                arguments.append(self.type_())
                if self.peek() == ",":
                    self.next()
            self.next()
            return ("function", arguments, self.type_())
        if t == "(":
            x = self.type_()
            self.next()
            return x
        if t == "[":
            x = self.type_()
            self.next()
            return ("list", x)
        if t == "{":
            k = self.type_()
            self.next()
            v = self.type_()
            self.next()
            return ("map", k, v)
        return ("name", t)


BASIC = ("number", "string", "boolean", "none", "any", "error")


class Package:
    def __init__(self, root):
        self.root, self.modules = root, {}
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ("target", "ffi", ".pen") or x == "ffi" and d == root and root.endswith("packages")]
            for f in sorted(fs):
                if f.endswith(".pen") and not f.endswith(".test.pen"):
                    p = os.path.relpath(f"{d}/{f}", root)
                    self.modules["'" + p[:-4].replace("/", "'")] = Module(f"{d}/{f}", open(f"{d}/{f}").read())

    def resolve(self, module, t):
        """A type without aliases; records are ("record", name, fields, module)."""
        if t[0] == "name":
            n = t[1]
            if n in BASIC:
                return t
            home, name = module, n
            if "'" in n:
                prefix, name = n.split("'", 1)
                paths = [p for p in module.modules.get(prefix, []) if p in self.modules and name in self.modules[p].types]
                if not paths:
                    return ("unknown", n)
                home = self.modules[paths[0]]
            elif n in module.names:
                home = self.modules.get(module.names[n])
            if home is None or name not in home.types:
                return ("unknown", n)
            kind, x = home.types[name]
            return self.resolve(home, x) if kind == "alias" else ("record", name, x, home)
        return t
