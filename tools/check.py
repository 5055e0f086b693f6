#!/usr/bin/env python3
"""Runs one check:  check.py ID [more arguments for the harness binary]      (environment: VERIF_SEED, VERIF_TIER)

Mirrors /repo's working tree to /verif/.build/ws, builds the harness crate of the property (HARNESS below), runs it.
Exit 0: held; 1: VIOLATION line printed; 2: the build failed; others: an error of the check.

check.py --setup builds every harness crate;  check.py --replay FILE runs a replay file again.
"""
import json, os, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
WS = os.environ.get("VERIF_WS", f"{VERIF}/.build/ws")


def harness_of(prop):
    for line in open(f"{VERIF}/tools/harness.txt"):
        name, *props = line.split()
        if prop in props:
            return name
    sys.exit(f"no harness for {prop}")


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUST_LOG="off")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def crates():
    return [l.split()[0] for l in open(f"{VERIF}/tools/harness.txt") if l.strip()]


def build(names):
    # All crates are selected and only some of their binaries built: cargo then resolves the same features for
    # every check, and what --setup has built is used again.
    lock = open(f"{WS}.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    subprocess.run([sys.executable, f"{VERIF}/tools/mirror.py", "--ws", WS], check=True)
    cmd = ["cargo", "build", "--offline", "-q"]
    for n in crates():
        cmd += ["-p", n]
    for n in names:
        cmd += ["--bin", n]
    r = subprocess.run(cmd, cwd=WS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:], file=sys.stderr)
        print("the build failed", file=sys.stderr)
        sys.exit(2)
    lock.close()


def main():
    args = sys.argv[1:]
    os.makedirs(f"{VERIF}/.build", exist_ok=True)
    if args[:1] == ["--setup"]:
        names = crates()
        t = time.time()
        build(names)
        print(f"built {len(names)} harness crates in {time.time() - t:.0f} s")
        return
    if args[:1] == ["--replay"]:
        prop = json.load(open(args[1]))["property"]
        rest = ["--replay", os.path.abspath(args[1])]
    else:
        prop = args[0]
        rest = [prop, "--known", f"{VERIF}/known_findings.jsonl", "--evidence", f"{VERIF}/evidence",
                "--replays", f"{VERIF}/replays"] + args[1:]
    name = harness_of(prop)
    build([name])
    sys.stdout.flush()
    os.chdir(VERIF)
    os.execve(f"{WS}/target/debug/{name}", [name] + rest, env())


main()
