"""Builds the fact base: type-checks /repo's current sources with the driver and loads the JSON it writes.

/repo is never written to: its sources are copied into .work/shadow (afresh on every build, so cargo never takes a
workspace crate as fresh and skips the driver), and all build products go to .work.  Compiler crates whose git
dependencies cannot be fetched are checked against the stand-in crates of /verif/stubs.
"""
import json, os, re, shutil, subprocess, sys, fcntl, hashlib, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PEN_REPO", "/repo")
WORK = os.environ.get("PEN_WORK", os.path.join(VERIF, ".work"))

ROOT_CRATES = ["ast", "doc", "ffi", "ffi-macro", "format", "parse", "position", "test-info"]
COMPILER_CRATES = ["hir", "interface", "ast-hir", "mir", "hir-mir"]
PACKAGES = ["core", "html", "http", "json", "os/ffi/library", "os/ffi/application", "os-sync/ffi/library",
            "os-sync/ffi/application", "prelude", "random", "regex", "sql", "test", "cmd/test"]


class BuildError(Exception):
    pass


def package_dir(name):
    return name if name.startswith("cmd/") else f"packages/{name}" if "/" in name else f"packages/{name}/ffi"


def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    return e


def run(cmd, cwd, e, timeout=840):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def driver():
    """Builds the driver (a no-op when it is up to date) and returns (binary, sysroot)."""
    e = env()
    e["CARGO_TARGET_DIR"] = f"{WORK}/driver"
    code, out = run(["cargo", "+nightly", "build", "--offline"], f"{VERIF}/driver", e)
    if code:
        raise BuildError("the driver does not build:\n" + out[-4000:])
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    return f"{WORK}/driver/debug/pen-facts", sysroot


def copy_tree(source, target):
    def ignore(directory, names):
        return [n for n in names if n in ("target", ".git", "node_modules")]
    shutil.copytree(source, target, ignore=ignore, symlinks=True, copy_function=shutil.copy)


def tree_hash(paths):
    h = hashlib.sha256()
    for path in paths:
        for directory, names, files in os.walk(path):
            names[:] = sorted(n for n in names if n not in ("target", ".git"))
            for f in sorted(files):
                full = os.path.join(directory, f)
                if os.path.islink(full):
                    continue
                h.update(full.encode())
                with open(full, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def wrapper_env(target, out):
    binary, sysroot = driver()
    e = env()
    e["RUSTC_WORKSPACE_WRAPPER"] = binary
    e["LD_LIBRARY_PATH"] = f"{sysroot}/lib"
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = "--cap-lints=allow"
    e["PEN_FACTS_OUT"] = out
    return e


STUBS = ["petgraph", "plist", "hamt"]


def write_manifest(path, crates):
    """The shadow workspace: the chosen crates, with dependencies that cannot be fetched pointed at the stand-ins."""
    extra = '  "fixture",\n' if os.path.exists(f"{path}/fixture") else ""
    members = "".join(f'  "lib/{c}",\n' for c in crates)
    with open(f"{path}/Cargo.toml", "w") as f:
        f.write(f"[workspace]\nmembers = [\n{members}{extra}]\nresolver = \"2\"\n")
    for c in crates:
        manifest = f"{path}/lib/{c}/Cargo.toml"
        text = open(manifest).read()
        for n in STUBS:
            text = re.sub(r'(?m)^%s\s*=.*$' % re.escape(n), f'{n} = {{ path = "{VERIF}/stubs/{n}" }}', text)
        with open(manifest, "w") as f:
            f.write(text)


def build_witnesses():
    """Type-checks each program of fixtures/witness by itself.  Returns {program: [error codes]}."""
    os.makedirs(WORK, exist_ok=True)
    out = f"{WORK}/facts/witness"
    with open(f"{WORK}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = tree_hash([f"{REPO}/lib/ffi", f"{REPO}/lib/ffi-macro", f"{VERIF}/fixtures/witness"])
        if os.path.exists(f"{out}/.hash") and open(f"{out}/.hash").read() == digest:
            return json.load(open(f"{out}/results.json"))
        shadow = f"{WORK}/shadow/witness"
        for d in (shadow, out):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(shadow)
        os.makedirs(out)
        for c in ("ffi", "ffi-macro"):
            copy_tree(f"{REPO}/lib/{c}", f"{shadow}/lib/{c}")
        copy_tree(f"{VERIF}/fixtures/witness", f"{shadow}/fixture")
        shutil.copy(f"{REPO}/Cargo.lock", f"{shadow}/Cargo.lock")
        write_manifest(shadow, ["ffi", "ffi-macro"])
        e = env()
        e["CARGO_TARGET_DIR"] = f"{WORK}/target/lib"
        e["RUSTFLAGS"] = "--cap-lints=allow"
        p = subprocess.run(["cargo", "+nightly", "check", "--offline", "-p", "pen-ffi-witness", "--bins", "--keep-going", "--message-format=json"],
                           cwd=shadow, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=840)
        results, built = {}, set()
        for line in p.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["kind"] == ["bin"]:
                results[m["target"]["name"]] = []
            elif m.get("reason") == "compiler-artifact":
                built.add(m["target"]["name"])
            elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["message"]["spans"]:
                results.setdefault(m["target"]["name"], []).append((m["message"].get("code") or {}).get("code") or "E0000")
        if "pen_ffi_witness" not in built:
            raise BuildError("the runtime library does not type-check:\n" + p.stderr[-4000:])
        names = {f[:-3] for f in os.listdir(f"{VERIF}/fixtures/witness/src/bin")}
        if set(results) != names:
            raise BuildError(f"no result for {sorted(names ^ set(results))}")
        with open(f"{out}/results.json", "w") as f:
            json.dump(results, f)
        with open(f"{out}/.hash", "w") as f:
            f.write(digest)
        return results


def build_group(group):
    """group: 'root', 'ffi', 'compiler' or 'pkg:<name>'.  Returns the directory of the group's JSON files."""
    os.makedirs(WORK, exist_ok=True)
    tag = re.sub(r"[^a-z0-9-]", "_", group)
    out = f"{WORK}/facts/{tag}"
    with open(f"{WORK}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if group == "ffi":
            # The FFI library with every feature, and a crate which uses each of its macros.
            crates = ["ffi", "ffi-macro"]
            sources = [f"{REPO}/lib/ffi", f"{REPO}/lib/ffi-macro", f"{VERIF}/fixtures/ffi", f"{VERIF}/driver/src"]
        elif group in ("root", "compiler"):
            crates = ROOT_CRATES if group == "root" else COMPILER_CRATES + ["ast", "position", "test-info"]
            sources = [f"{REPO}/lib", f"{VERIF}/stubs", f"{VERIF}/driver/src"]
        else:
            name = group[4:]
            sources = [f"{REPO}/{package_dir(name)}", f"{VERIF}/driver/src"]
        stamp = f"{out}/.hash"
        digest = tree_hash(sources)
        if os.path.exists(stamp) and open(stamp).read() == digest:
            return out
        shadow = f"{WORK}/shadow/{tag}"
        for d in (shadow, out):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(shadow)
        os.makedirs(out)
        e = wrapper_env(f"{WORK}/target/{'pkg' if ':' in group else 'lib'}", out)
        if ":" not in group:
            for c in crates:
                copy_tree(f"{REPO}/lib/{c}", f"{shadow}/lib/{c}")
            if group == "ffi":
                copy_tree(f"{VERIF}/fixtures/ffi", f"{shadow}/fixture")
            lock = open(f"{REPO}/Cargo.lock").read()
            # Cargo resolves the crates it has stand-ins for afresh, and keeps every other locked version.
            for n in STUBS:
                lock = re.sub(r'\[\[package\]\]\nname = "%s"\n(.+\n)*' % n, "", lock)
            with open(f"{shadow}/Cargo.lock", "w") as f:
                f.write(lock)
            write_manifest(shadow, crates)
            directory = shadow
        else:
            directory = f"{shadow}/{package_dir(name)}"
            os.makedirs(os.path.dirname(directory))
            copy_tree(f"{REPO}/{package_dir(name)}", directory)
        code, text = run(["cargo", "+nightly", "check", "--offline", "--workspace"], directory, e)
        with open(f"{WORK}/facts/{tag}.log", "w") as f:
            f.write(text)
        if code:
            raise BuildError(f"{group} does not type-check:\n" + text[-6000:])
        expected = len(crates) + (group == "ffi") if ":" not in group else 1
        if len([f for f in os.listdir(out) if f.endswith(".json")]) < expected:
            raise BuildError(f"{group}: the driver did not see every crate")
        with open(stamp, "w") as f:
            f.write(digest)
        return out


class Crate:
    def __init__(self, path):
        with open(path) as f:
            data = json.load(f)
        self.name = data["crate"]
        self.types = data["types"]
        self.items = data["items"]
        self.bodies = data["bodies"]
        self.by_key = {b["key"]: b for b in self.bodies}
        self.fns = {f["key"]: f for f in self.items["fns"]}
        self.adts = {a["path"]: a for a in self.items["adts"]}
        prefix = f"{WORK}/shadow/"
        # Bodies of standard library functions which the crate calls.
        self.library = data.get("library", [])
        for b in self.bodies + self.library:
            b["crate"] = self

    def body(self, path):
        found = [b for b in self.bodies if b["path"] == path]
        return found[0] if found else None


_cache = {}


def load(group):
    if group not in _cache:
        directory = build_group(group)
        _cache[group] = {}
        for f in sorted(os.listdir(directory)):
            if f.endswith(".json"):
                c = Crate(f"{directory}/{f}")
                kind = f.split(".")[-2]
                name = c.name if kind == "lib" or c.name not in _cache[group] else c.name + ":bin"
                _cache[group][name] = c
    return _cache[group]


def groups():
    return ["root", "ffi", "compiler"] + [f"pkg:{p}" for p in PACKAGES]


if __name__ == "__main__":
    if not sys.argv[1:]:
        build_witnesses()
    for g in sys.argv[1:] or groups():
        t = time.time()
        build_group(g)
        print(g, round(time.time() - t, 1), "s", flush=True)
