#!/usr/bin/env python3
"""Mutation testing of the checks (development only; nothing here is a check).

mutate.py OUT [--per-file N] [--seed S] [--files REGEX]
Copies /repo to /tmp/mt/repo, mutates one line at a time, builds the harness crates of the properties that cover the file and
runs their quick checks until one reports a violation. Survivors are appended to OUT with their diff.
"""
import os, random, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
ROOT = os.environ.get("MT_ROOT", "/tmp/mt")
OUT = sys.argv[1]


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


PER = int(opt("--per-file", "8"))
SEED = int(opt("--seed", "1"))
FILES = re.compile(opt("--files", "."))

COVER = [
    (r"^utxo/src", "C28"), (r"^pos-accounting/src", "C29"), (r"^tokens-accounting/src", "C30"), (r"^orders-accounting/src", "C31"),
    (r"^chainstate/constraints-value-accumulator/src", "C32"),
    (r"^common/src/chain/config/emission_schedule|^chainstate/tx-verifier/src/transaction_verifier/reward_distribution", "C36"),
    (r"^wallet/src/account/utxo_selector", "C40"),
    (r"^mempool/src", "C38"),
    (r"^wallet/src/(account|wallet|send_request|signer)", "C39 C47"),
    (r"^wallet/(storage|types)|^utils/src/maybe_encrypted", "C42"),
    (r"^consensus/src|^common/src/chain/(chaintrust|pow|pos|block/consensus_data|config/upgrades|upgrades)", "C37"),
    (r"^chainstate/(src|storage|types|tx-verifier)", "C34 C33 C41 C35"),
    (r"^common/src/chain/transaction/signature", "C26"), (r"^mintscript/src", "C27"),
    (r"^common/src/(address|chain/transaction/.*(id|destination))", "C25 C24 C23"),
    (r"^accounting/src/(delta|error|lib)", "C07"),
    (r"^common/src/uint/", "C03 C04"),
    (r"^common/src/primitives/amount/", "C01 C02 C05"),
    (r"^common/src/primitives/(compact)", "C04"),
    (r"^common/src/primitives/(rational|per_thousand)", "C05"),
    (r"^common/src/primitives/bech32", "C06"),
    (r"^common/src/primitives/(height|time|semver)|^common/src/time_getter", "C21"),
    (r"^crypto/src/hash", "C12"),
    (r"^crypto/src/vrf", "C10 C09"),
    (r"^crypto/src/(symkey|kdf|ephemeral|util)", "C11"),
    (r"^crypto/src/key/(hdkd|extended|secp256k1/ext)", "C09"),
    (r"^crypto/src/key", "C08 C09"),
    (r"^script/src", "C13"),
    (r"^storage/", "C15"),
    (r"^subsystem/", "C16"),
    (r"^rpc/", "C20"),
    (r"^utils/src/bloom", "C14"),
    (r"^utils/src/eventhandler|^utils/networking/src/broadcaster", "C17"),
    (r"^utils/src/(atomics|counttracker|blockuntil|once_destr)", "C18"),
    (r"^utils/networking/", "C19"),
    (r"^utils/src/cookie", "C20"),
    (r"^utils/src/(set_flag|const_value|sender_with_id)", "C46"),
    (r"^utils/src/(graph|array|qrcode|exp_rand|sorted|shuffled|app_version|iter)|^randomness", "C22"),
    (r"^serialization/", "C43"),
    (r"^logging/|^utils/src/(env_utils|config_setting|default_data|clap_utils)", "C44"),
    (r"^utils/log_error|^utils/src/(tap_log|log_utils|workspace)", "C45"),
    (r"^utils/", "C46"),
]
have = {p for l in open(f"{VERIF}/tools/harness.txt") for p in l.split()[1:]}


def props(f):
    for r, ids in COVER:
        if re.search(r, f):
            return [i for i in ids.split() if i in have]
    return []


RULES = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" % ", " / "),
    (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| (?!\w+\|)", " & "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.is_ok\(\)", ".is_err()"), (r"\.is_empty\(\)", ".len() == 1"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.rev\(\)", ""),
    (r"if !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.first\(", ".last("), (r"\.last\(", ".first("), (r"\.all\(", ".any("), (r"\.any\(", ".all("),
    (r"Ordering::Less", "Ordering::Greater"), (r"checked_add", "checked_sub"), (r"\.skip\(1\)", ""), (r"\.\.=", ".."),
    (r"(?<=[(\[ ])(\d+)(?=[)\];, ])", lambda m: str(int(m[1]) + 1)), (r"(?<=[(\[ ])([1-9]\d*)(?=[)\];, ])", lambda m: str(int(m[1]) - 1)),
    (r"to_be_bytes", "to_le_bytes"), (r"to_le_bytes", "to_be_bytes"), (r"from_be_bytes", "from_le_bytes"),
    (r"^(\s*)([a-z_.]+(\.|\()[^={}]*;)$", r"\1"), (r"^(\s*)return .*;$", r"\1"), (r"\?;$", ".ok();"), (r"\.saturating_sub", ".wrapping_sub"),
    (r"Some\((\w+)\)", "None"), (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"\.clone\(\)\.", "."), (r"\bunwrap_or\(", "and_then(|_| None).unwrap_or("),
]


def mutants(path, rng):
    lines = open(path).read().split("\n")
    out, skip = [], None
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r"#\[cfg\((all\()?(test|loom|windows|target_os)", s) or s.startswith("mod test"):
            if i + 1 < len(lines) and ("mod " in lines[i + 1] and lines[i + 1].rstrip().endswith("{") or s.endswith("{")):
                break
            continue
        if s.startswith(("//", "#", "use ", "pub use", "assert", "debug_assert", "log::", "///", "write!", "#[error")) or "log::" in s or "expect(" in s:
            continue
        for r, to in RULES:
            for m in re.finditer(r, l):
                new = l[:m.start()] + m.expand(to) + l[m.end():] if isinstance(to, str) else l[:m.start()] + to(m) + l[m.end():]
                if new != l:
                    out.append((i, l, new))
    rng.shuffle(out)
    return out


def main():
    os.makedirs(ROOT, exist_ok=True)
    repo = f"{ROOT}/repo"
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"], check=True) \
        if subprocess.run(["which", "rsync"], capture_output=True).returncode == 0 \
        else subprocess.run(f"rm -rf {ROOT}/repo && mkdir -p {repo} && cd /repo && git archive HEAD | tar x -C {repo}", shell=True, check=True)
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "*.rs"], capture_output=True, text=True).stdout.split()
    files = [f for f in files if FILES.search(f) and props(f) and not re.search(r"(^|/)(tests?|benches|examples)(/|\.rs)|_tests?\.rs|loom", f)]
    env = dict(os.environ, VERIF_WS=f"{ROOT}/ws", VERIF_REPO=repo)
    stats = dict(killed=0, survived=0, broken=0, hung=0)
    rng = random.Random(SEED)
    work = []
    for f in files:
        ms = mutants(f"{repo}/{f}", rng)
        n = max(2, min(PER, len(ms)))
        work += [(f, ms)]
    for f, ms in work:
        done = 0
        path = f"{repo}/{f}"
        orig = open(path).read()
        for i, old, new in ms:
            if done >= PER:
                break
            lines = orig.split("\n")
            lines[i] = new
            open(path, "w").write("\n".join(lines))
            verdict = "survived"
            for p in props(f):
                try:
                    r = subprocess.run([sys.executable, f"{VERIF}/tools/check.py", p, "--evidence", f"{ROOT}/ev", "--replays", f"{ROOT}/rp"],
                                       env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    verdict = "hung"
                    break
                if r.returncode == 2:
                    verdict = "broken"
                    break
                if r.returncode != 0:
                    verdict = "killed"
                    break
            open(path, "w").write(orig)
            stats[verdict] += 1
            if verdict != "broken":
                done += 1
            if verdict in ("survived", "hung"):
                with open(OUT, "a") as o:
                    o.write(f"{verdict} {f}:{i + 1}\n  - {old.strip()}\n  + {new.strip()}\n")
        with open(OUT, "a") as o:
            o.write(f"# {f}: {stats} {time.strftime('%H:%M')}\n")


main()
