#!/usr/bin/env python3
"""Lays out WS (/verif/.build/ws): the part of /repo's cargo workspace that the checks need, with the harness crates.

/repo's own workspace cannot be resolved without network (git dependencies). The mirror holds a copy of every
source file of the packages in SCOPE *as it is in /repo's working tree now*; only manifests are derived (external crates
that are not in the offline cargo cache point to the stand-ins in /verif/shims, or are dropped with the few modules that
need them: CUTS). A file is only written when its content changes, so cargo rebuilds exactly what changed.

usage: mirror.py [--dev] [--ws DIR] [--repo DIR]
  --dev  keep dev-dependencies and tests (used to validate the stand-ins with /repo's own suites)
"""
import json, os, re, shutil, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
args = sys.argv[1:]
DEV = "--dev" in args
REPO = args[args.index("--repo") + 1] if "--repo" in args else os.environ.get("VERIF_REPO", "/repo")
WS = args[args.index("--ws") + 1] if "--ws" in args else os.environ.get("VERIF_WS", f"{VERIF}/.build/ws")
SHIMS = f"{VERIF}/shims"
HARNESS = f"{VERIF}/harness"

SCOPE = """
accounting chainstate chainstate/constraints-value-accumulator chainstate/storage chainstate/test-framework
chainstate/tx-verifier chainstate/types common consensus crypto logging mempool mempool/types mintscript
networking orders-accounting
p2p/types pos-accounting randomness rpc rpc/description rpc/description-macro rpc/types script
serialization serialization/core serialization/tagged serialization/tagged/derive
storage storage/core storage/failing storage/inmemory storage/sqlite subsystem test-utils tokens-accounting utils
utils/build_utils utils/log_error utils/networking utils/typename utils/typename-derive utxo
wallet/types wallet/storage wallet wasm-wrappers/wasm-doc-gen
""".split()
if DEV:
    SCOPE += ["chainstate/test-suite"]

#: Crates of the cargo cache's gaps that have a stand-in in /verif/shims.
SHIM = {d for d in os.listdir(SHIMS) if os.path.exists(f"{SHIMS}/{d}/Cargo.toml")}
#: Dependencies that are dropped (with CUTS, or features nobody enables).
DROP = {
    "ml_primitives", "trezor-client", "ledger-lib", "ledger-proto", "mintlayer-ledger-messages",
    "storage-lmdb", "storage-backend-test-suite", "reqwest", "rstest_reuse", "libtest-mimic",
}
#: Workspace dependencies whose locked version is not cached, but a compatible-enough one is.
OVERRIDE = {"socket2": "0.6"}
#: Features removed from manifests (they only switch dropped dependencies on).
DROP_FEATURES = {("chainstate-storage", "mock"), ("chainstate-storage", "lmdb"), ("chainstate/storage", "mock")}
#: file: regexes of the one-line items that are blanked.
CUTS = {}
#: files that only convert to and from the types of a git dependency: replaced.
STUB = {
    "common/src/primitives_converters.rs":
        "#[derive(Debug, Clone, PartialEq, Eq)]\npub enum PrimitivesConvertersError {\n    UnsupportedTokenV0,\n}\n",
}


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    except IsADirectoryError:
        shutil.rmtree(path)
    tmp = path + ".tmp~"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def toml(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    return json.dumps(v)


def table(name, value):
    return f"[{name}]\n" + "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in value.items()) + "\n"


def deps(pkg, value, external):
    out = {}
    for name, spec in value.items():
        s = spec if isinstance(spec, dict) else {}
        real = s.get("package", name)
        if name in DROP or real in DROP:
            continue
        if "path" in s:
            if os.path.normpath(os.path.join(pkg, s["path"])) not in SCOPE:
                continue
            if "features" in s:
                spec = dict(s, features=[f for f in s["features"] if (real, f) not in DROP_FEATURES])
        elif real in SHIM:
            n = {k: v for k, v in s.items() if k not in ("workspace", "version", "git", "rev")}
            w = external.get(name)
            if s.get("workspace") and isinstance(w, dict):
                n = {**{k: v for k, v in w.items() if k not in ("version", "git", "rev", "path")}, **n,
                     "features": sorted(set(w.get("features", [])) | set(n.get("features", [])))}
            n["path"] = f"{SHIMS}/{real}"
            spec = n
        elif "git" in s:
            continue
        elif s.get("workspace") and name not in external:
            continue
        out[name] = spec
    return out


def manifest(pkg, external):
    m = tomllib.load(open(f"{REPO}/{pkg}/Cargo.toml", "rb"))
    text = ""
    keys = set()
    kept = {}
    for key in ("dependencies", "dev-dependencies", "build-dependencies"):
        if key in m and (DEV or key != "dev-dependencies"):
            kept[key] = deps(pkg, m[key], external)
            keys |= set(kept[key])
    for key, value in m.items():
        if key in ("dependencies", "build-dependencies"):
            text += table(key, kept[key])
        elif key == "dev-dependencies":
            if DEV:
                text += table(key, kept[key])
        elif key == "target":
            for cfg, t in value.items():
                for kind, v in t.items():
                    if kind == "dev-dependencies" and not DEV:
                        continue
                    text += table(f"target.{json.dumps(cfg)}.{kind}", deps(pkg, v, external))
        elif key == "bench":
            continue
        elif key in ("test", "example"):
            if DEV:
                for v in value:
                    text += "[" + table(key, v).replace("]\n", "]]\n", 1)
        elif key == "bin":
            for v in value:
                text += "[" + table(key, v).replace("]\n", "]]\n", 1)
        elif key == "lints":
            text += table(key, value) if value.get("workspace") else "".join(table(f"lints.{k}", v) for k, v in value.items())
        elif key == "features":
            feats = {}
            for f, on in value.items():
                if (pkg, f) in DROP_FEATURES:
                    on = []
                o2 = []
                for x in on:
                    d = x.removeprefix("dep:").split("/")[0].rstrip("?")
                    if f == "default" and x in ("trezor", "ledger"):
                        continue
                    if (x.startswith("dep:") or "/" in x) and d not in keys:
                        continue
                    if "/" not in x and not x.startswith("dep:") and x not in value and x not in keys:
                        continue
                    if tuple(x.split("/", 1)) in DROP_FEATURES:
                        continue
                    o2.append(x)
                feats[f] = o2
            text += table(key, feats)
        else:
            if key == "package":
                value = dict(value)
                value["autobenches"] = False
                if not DEV:
                    value["autotests"] = False
                    value["autoexamples"] = False
            text += table(key, value)
    return text


def harness_members():
    out = []
    if os.path.isdir(HARNESS):
        for d in sorted(os.listdir(HARNESS)):
            if os.path.exists(f"{HARNESS}/{d}/Cargo.toml"):
                out.append(d)
    return out


def main():
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    ws = root["workspace"]
    external = {}
    for n, s in ws["dependencies"].items():
        d = s if isinstance(s, dict) else {}
        if n in DROP or d.get("package", n) in DROP:
            continue
        if "git" in d and d.get("package", n) not in SHIM:
            continue
        external[n] = OVERRIDE.get(n, s)
    wsdeps = {n: s for n, s in external.items()
              if (s.get("package", n) if isinstance(s, dict) else n) not in SHIM and not (isinstance(s, dict) and "git" in s)}
    members = SCOPE + ([f"harness/{d}" for d in harness_members()] if not DEV else [])
    text = table("workspace", {"members": members, "resolver": "3"})
    for key, value in ws.items():
        if key == "dependencies":
            text += table("workspace.dependencies", wsdeps)
        elif key == "package":
            text += table(f"workspace.{key}", value)
        elif key == "lints":
            text += table(f"workspace.{key}", value)
    # Checks: optimised, with the overflow checks and debug assertions of /repo's test profile.
    text += table("profile.dev", {"opt-level": 1, "debug": 0, "debug-assertions": True, "overflow-checks": True,
                                  "incremental": True, "panic": "unwind", "codegen-units": 64})
    text += '[profile.dev.package."*"]\nopt-level = 3\ncodegen-units = 16\ndebug-assertions = false\n\n'
    text += '[profile.dev.package.jsonrpsee-core]\ndebug-assertions = true\n\n'  # its macros expand in our crates
    text += '[profile.dev.build-override]\nopt-level = 0\n\n'
    # the default allocation of dependencies: do not let cargo resolve anything but the locked versions
    write(f"{WS}/Cargo.toml", text)
    wanted = {"Cargo.toml", "Cargo.lock"}
    for name in (".cargo/config.toml", "clippy.toml"):
        if os.path.exists(f"{REPO}/{name}"):
            data = open(f"{REPO}/{name}", "rb").read()
            if name == ".cargo/config.toml" and not DEV:
                # the hooks of /repo
                data = data.replace(b'"tokio_unstable"', b'"tokio_unstable", "--cfg", "mintlayer_verif"')
            write(f"{WS}/{name}", data)
            wanted.add(name)
    scope = set(SCOPE)

    def copy_tree(src_root, rel_root, is_repo):
        for base, dirs, files in os.walk(src_root):
            rel = os.path.normpath(os.path.join(rel_root, os.path.relpath(base, src_root)))
            skip = {"target", "benches", "proptest-regressions", ".git"}
            if is_repo and not DEV:
                top = rel == rel_root
                skip |= {"tests", "examples"} if top else set()
            dirs[:] = [d for d in dirs if d not in skip and not (is_repo and os.path.exists(f"{base}/{d}/Cargo.toml"))]
            for f in files:
                path = f"{rel}/{f}"
                src = f"{base}/{f}"
                if not os.path.isfile(src):
                    continue
                wanted.add(path)
                dst = f"{WS}/{path}"
                if is_repo and path == f"{rel_root}/Cargo.toml":
                    write(dst, manifest(rel_root, external))
                elif is_repo and path in STUB:
                    write(dst, STUB[path])
                elif is_repo and CUTS.get(path):
                    t = open(src).read()
                    for r in CUTS[path]:
                        t = re.sub(rf"(?m)^\s*{r}\s*$", "", t)
                    write(dst, t)
                elif f == "Cargo.toml" and not is_repo:
                    write(dst, open(src).read().replace("@SHIMS@", SHIMS))
                else:
                    write(dst, open(src, "rb").read())

    for pkg in SCOPE:
        copy_tree(f"{REPO}/{pkg}", pkg, True)
    if not DEV:
        for d in harness_members():
            copy_tree(f"{HARNESS}/{d}", f"harness/{d}", False)
    for base, dirs, files in os.walk(WS, topdown=False):
        if base == f"{WS}/target" or base.startswith(f"{WS}/target/"):
            continue
        for f in files:
            if os.path.relpath(f"{base}/{f}", WS) not in wanted:
                os.remove(f"{base}/{f}")
        if base != WS and not os.listdir(base):
            os.rmdir(base)
    lock_src = open(f"{REPO}/Cargo.lock").read()
    stamp = f"{WS}/target/.lock-src"
    key = lock_src + text + "".join(open(f"{WS}/{m}/Cargo.toml").read() for m in members)
    import hashlib
    h = hashlib.sha256(key.encode()).hexdigest()
    try:
        old = open(stamp).read()
    except FileNotFoundError:
        old = ""
    if old != h or not os.path.exists(f"{WS}/Cargo.lock"):
        write(f"{WS}/Cargo.lock", lock_src)
        os.makedirs(f"{WS}/target", exist_ok=True)
        write(stamp, h)


if __name__ == "__main__":
    main()
