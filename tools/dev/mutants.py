#!/usr/bin/env python3
"""development aid: makes small changes to a scratch copy of the source, keeps those that build and pass the tests,
and says which of them neither the finder nor the proof notices.
usage: mutants.py WORKDIR COUNT SEED [regex of files]"""
import json, os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
REPO = "/repo"
def sources():
    o = []
    for d, _, fs in os.walk(REPO + "/src"):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".rs") and "/tests" not in p and "error.rs" not in p and FILES.search(p): o.append(p)
    return sorted(o)
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"if !", "if "), (r"if ([a-z])", r"if !\1"),
       (r"\.is_some\(\)", ".is_none()"), (r"\.checked_add\(", ".checked_sub("), (r"\.take\(idx\)", ".take(idx + 1)"), (r"Some\(\(\)\)", "None"), (r"=> Ok\(\(\)\)", "=> Err(CheckError::ArithmeticOverflow)"),
       (r"\bmax_inputs\b", "max_outputs"), (r"\bmax_outputs\b", "max_inputs"), (r"\bbalance_root\b", "state_root"), (r"\bstate_root\b", "balance_root"), (r"\bowner\b", "asset_id"), (r"\bsender\b", "recipient"), (r"\brecipient\b", "sender"),
       (r"\bCoin\b", "Change"), (r"\bChange\b", "Variable"), (r"\bCoinSigned\b", "CoinPredicate"), (r"\bMessageSigned\b", "MessagePredicate"), (r"\bMessagePredicate\b", "MessageSigned"), (r"\bCoinPredicate\b", "CoinSigned"),
       (r"\bBasic\b", "Signatures"), (r"div_ceil", "div_floor"), (r"div_floor", "div_ceil"), (r"\bpredicate\b", "predicate_data"), (r"\bpredicate_data\b", "predicate"), (r"\bpc\b", "is"), (r"\bis\b", "pc"), (r"\bra\b", "rb"), (r"\brb\b", "ra"), (r"\brc\b", "rd"), (r"\bamount\b", "gas"), (r"\bto\b", "id"),
       (r"\bmaturity\b", "amount"), (r"\bgas_price\b", "gas_limit"), (r"\bgas_limit\b", "gas_price"), (r"\bscript\b", "script_data"), (r"\bscript_data\b", "script"), (r"\binputs\b", "outputs"), (r"as usize", "as u8 as usize"), (r"as Word", "as u16 as Word"), (r"as u64", "as u32 as u64"), (r"\bWORD_SIZE\b", "1"), (r"\| ", "|| false | ")]
def candidates():
    o = []
    for p in sources():
        ls = open(os.path.join(REPO, p)).read().split("\n")
        end = next((i for i, l in enumerate(ls) if re.match(r"\s*#\[cfg\((all\()?test", l)), len(ls))
        for i in range(end):
            l = ls[i]; t = l.strip()
            if not t or t.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "impl", "pub trait", "where", "type ")): continue
            for a, b in OPS:
                for m in re.finditer(a, l): 
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n != l: o.append((p, i, 1, n))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.x])", l):
                n = l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
                o.append((p, i, 1, n))
            if t.endswith(";") and not t.startswith(("let ", "pub ", "const ", "}", "return", ")")) and t.count("(") == t.count(")") and t.count("{") == t.count("}"): o.append((p, i, 1, ""))
            if i + 1 < end and t.endswith(";") and ls[i + 1].strip().endswith(";") and len(ls[i]) - len(ls[i].lstrip()) == len(ls[i+1]) - len(ls[i+1].lstrip()) and ls[i] != ls[i+1]: o.append((p, i, 2, ls[i + 1] + "\n" + ls[i]))
    return o
def apply(root, m):
    p, i, k, n = m
    f = os.path.join(root, p)
    ls = open(os.path.join(REPO, p)).read().split("\n")
    ls[i:i + k] = [n]
    open(f, "w").write("\n".join(ls))
def undo(root, m): shutil.copyfile(os.path.join(REPO, m[0]), os.path.join(root, m[0]))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
def survives(root, m):
    apply(root, m)
    try:
        e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        q = subprocess.run(["cargo", "test", "--workspace", "--all-features", "--offline", "--lib", "--tests", "-j", "2", "--", "--test-threads", "2"], cwd=root, env=e, capture_output=True, text=True, timeout=200)
        if q.returncode == 0: return "alive"
        return "killed" if "test result: FAILED" in q.stdout else "nobuild"
    except subprocess.TimeoutExpired: return "killed"
    finally: undo(root, m)
def main():
    rnd = random.Random(SEED)
    c = candidates(); rnd.shuffle(c); c = c[:N]
    print("candidates", len(c), flush=True)
    roots = []
    for k in range(4):
        r = os.path.join(W, f"w{k}", "fuel-tx")
        if not os.path.exists(r): os.makedirs(os.path.dirname(r), exist_ok=True); subprocess.run(["cp", "-a", REPO, r], check=True)
        roots.append(r)
    alive = []
    stat = {}
    def work(k):
        for m in c[k::4]:
            s = survives(roots[k], m)
            stat[s] = stat.get(s, 0) + 1
            if s == "alive": alive.append(m)
    with ThreadPoolExecutor(4) as ex: list(ex.map(work, range(4)))
    print(stat, flush=True)
    json.dump(alive, open(os.path.join(W, f"alive-{SEED}.json"), "w"))
    root = roots[0]
    h = os.path.join(W, "harness")
    if not os.path.exists(h): subprocess.run(["cp", "-a", "/verif/harness", h], check=True)
    t = open("/verif/harness/Cargo.toml").read().replace('"/repo"', f'"{root}"')
    open(os.path.join(h, "Cargo.toml"), "w").write(t)
    for d, _, fs in os.walk("/verif/harness/src"):
        for f in fs: shutil.copyfile(os.path.join(d, f), os.path.join(h, "src", os.path.relpath(os.path.join(d, f), "/verif/harness/src")))
    for m in alive:
        apply(root, m)
        old = open(os.path.join(REPO, m[0])).read().split("\n")[m[1]]
        q = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=h, env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(W, "target"), RUSTFLAGS="-Awarnings"), capture_output=True, text=True)
        found = []
        if q.returncode == 0:
            for k in range(1, 26):
                try: x = subprocess.run([os.path.join(W, "target/debug/finder"), "--prop", f"C{k:02d}", "--seconds", "2", "--seed", "1", "--threads", "8"], capture_output=True, text=True, timeout=60)
                except subprocess.TimeoutExpired: found.append(f"C{k:02d}:timeout"); continue
                if "FOUND" in x.stdout: found.append(f"C{k:02d}")
                if len(found) >= 3: break
        out = ""
        if not found:
            x = subprocess.run(["/verif/check", "--prove"], env=dict(os.environ, VP_REPO=root), capture_output=True, text=True)
            out = x.stdout.strip()
        undo(root, m)
        tag = "finder" if found else ("proof" if "fails" in out else ("UNDECIDED" if out else "MISSED"))
        print(f"{tag} {m[0]}:{m[1] + 1}\n   - {old.strip()}\n   + {m[3].strip()}\n   {' '.join(found)} {out[:300]}", flush=True)
main()
