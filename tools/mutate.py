#!/usr/bin/env python3
"""Mutation sweep: applies small mechanical changes to copies of the crate and runs the checks
(plain builds, small scale) against each. Development tool, not used by any check.
   mutate.py list                     lists the mutants
   mutate.py run OUT.jsonl N W [FILTER]   runs N mutants chosen at random (resumes OUT) on W cores
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
FILES = ["reader.rs", "builder.rs", "bytes.rs", "crc_reader.rs", "entry_data.rs", "filesystem_entry.rs", "structs.rs", "actix_web.rs"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_DIR", "/tmp/mut")
CHECKS = [f"C{i:02}" for i in range(1, 24)]

def nontest(path):
    lines = open(path).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if l.strip() == "#[cfg(test)]" and i + 1 < len(lines) and re.match(r"\s*(pub )?mod ", lines[i + 1]):
            break
        out.append(l)
    return lines, len(out)

SWAPS = [(" == ", " != "), (" != ", " == "), (" >= ", " > "), (" > ", " >= "), (" <= ", " < "), (" < ", " <= "),
         (" >= ", " < "), (" > ", " < "), (" < ", " > "),
         (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), (" += ", " = "), (" && ", " || "), (" || ", " && "),
         (" & ", " | "), (" | ", " & "), ("true", "false"), ("false", "true"), ("u32::MAX", "0"), ("u16::MAX", "0"),
         ("Some(", "None.or(Some("), ("if let Some", "if let None"), (".is_empty()", ".is_empty() == false"),
         ("saturating_add", "wrapping_add"), ("checked_add", "wrapping_add"), ("symlink_metadata", "metadata"),
         ("SeekFrom::Start", "SeekFrom::Current"), (" << ", " >> "), (" * ", " + "), (" / ", " * "), ("::Symlink", "::File"), ("::Directory", "::File"),
         ("entry.size", "0"), ("ready!(", "(")]

def mutants(src):
    ms = []
    for f in FILES:
        lines, n = nontest(os.path.join(src, f))
        for i in range(n):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith(("//", "#[", "#![", "use ", "assert!", "pub use", "debug_assert")) or "unreachable!" in s:
                continue
            for a, b in SWAPS:
                start = 0
                while True:
                    k = l.find(a, start)
                    if k < 0:
                        break
                    start = k + len(a)
                    nl = l[:k] + b + l[k + len(a):]
                    ms.append((f, i, f"{a}->{b}", nl))
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]*[\"\w])", l):
                t = m.group(1)
                try:
                    v = int(t, 0) if not t.startswith("0") or t == "0" or t.startswith("0x") else int(t, 8)
                except ValueError:
                    continue
                for nv in {v + 1, max(v - 1, 0)} - {v}:
                    ms.append((f, i, f"{t}->{nv}", l[:m.start()] + str(nv) + l[m.end():]))
            if s.endswith(";") and not s.startswith(("let ", "}", ")", "pub ", "const ", "type ", "return", "break", "continue", ".")) and s.count("(") == s.count(")"):
                ms.append((f, i, "delete", ""))
            if s.startswith("return") and s.endswith(";") and s.count("(") == s.count(")"):
                ms.append((f, i, "delete", ""))
            m = re.match(r"^(\s*(?:\} else )?if )(?!let)(.*)( \{)$", l)
            if m:
                ms.append((f, i, "if true", f"{m.group(1)}true || ({m.group(2)}){m.group(3)}"))
                ms.append((f, i, "if false", f"{m.group(1)}false && ({m.group(2)}){m.group(3)}"))
            if "!" in l:
                for m in re.finditer(r"(?<!\w)!(?=[\w(])", l):
                    ms.append((f, i, "drop !", l[:m.start()] + l[m.end():]))
    return ms

def prepare(w):
    d = f"{BASE}/{w}"
    if not os.path.isdir(f"{d}/h/target"):
        os.makedirs(d, exist_ok=True)
    for x in ("repo", "h/src"):
        shutil.rmtree(f"{d}/{x}", ignore_errors=True)
    os.makedirs(f"{d}/repo"); os.makedirs(f"{d}/h", exist_ok=True)
    for x in ("Cargo.toml", "Cargo.lock", "README.md"):
        shutil.copy(f"/repo/{x}", f"{d}/repo/{x}")
    shutil.copytree("/repo/src", f"{d}/repo/src"); shutil.copytree("/repo/examples", f"{d}/repo/examples")
    shutil.copytree(f"{HERE}/harness/src", f"{d}/h/src")
    shutil.copy(f"{HERE}/KNOWN_FINDINGS", f"{d}/KNOWN_FINDINGS")
    shutil.copy(f"{HERE}/harness/Cargo.lock", f"{d}/h/Cargo.lock")
    t = open(f"{HERE}/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "../repo"').replace("debug = 1", "debug = 0")
    open(f"{d}/h/Cargo.toml", "w").write(t)
    return d

def run_one(w, d, m, scale, checks=CHECKS):
    f, i, op, nl = m
    path = f"{d}/repo/src/{f}"
    orig = open(f"/repo/src/{f}").read()
    lines = orig.split("\n"); old = lines[i]; lines[i] = nl
    open(path, "w").write("\n".join(lines))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", ZV_EVIDENCE_DIR=d, ZV_SCALE=str(scale), ZV_BUDGET_S="25")
    env.pop("CARGO_TARGET_DIR", None)
    pin = ["taskset", "-c", str(w)]
    b = subprocess.run(pin + ["cargo", "build", "--release", "--offline", "-j1"], cwd=f"{d}/h", env=env, capture_output=True, text=True)
    rec = {"file": f, "line": i + 1, "op": op, "old": old.strip(), "new": nl.strip()}
    if b.returncode != 0:
        rec["result"] = "nobuild"
    else:
        kills, odd = [], []
        checks = list(checks); random.shuffle(checks)
        for c in checks:
            if len(kills) >= 2:
                break
            try:
                p = subprocess.run(pin + ["h/target/release/zv", c, "quick"], cwd=d, env=env, capture_output=True, text=True, timeout=150)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1 or (isinstance(rc, int) and rc < 0):
                kills.append(c)
            elif rc != 0:
                odd.append(f"{c}:{rc}")
        rec["result"] = "killed" if kills else "survived"; rec["kills"] = kills; rec["odd"] = odd
    open(path, "w").write(orig)
    return rec

def main():
    ms = mutants("/repo/src")
    if sys.argv[1] == "list":
        for m in ms: print(m[0], m[1] + 1, m[2], "|", m[3].strip())
        print(len(ms)); return
    out, n, workers = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    flt = sys.argv[5] if len(sys.argv) > 5 else ""
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r["file"], r["line"], r["op"], r["new"]))
    todo = [m for m in ms if (m[0], m[1] + 1, m[2], m[3].strip()) not in done and m[0].startswith(flt)]
    random.Random(7).shuffle(todo)
    q = queue.Queue()
    for m in todo[:n]: q.put(m)
    lock = threading.Lock()
    def work(w):
        d = prepare(w)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            r = run_one(w, d, m, float(os.environ.get("MUT_SCALE", "0.015")))
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
