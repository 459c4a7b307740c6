#!/usr/bin/env python3
"""Tries systematic small changes of /repo against the checks.

usage: mutate.py list FILE...                 number of mutants
       mutate.py run OUT PART/PARTS FILE...   (inside a private namespace, see mutate.sh)
Each mutant is one textual change of one line (outside tests and comments). Mutants that do not build or that the
repository's tests kill are dropped; the others are run against the checks that fit the file, the cheapest first,
with a few seconds each; OUT gets one line per mutant.
"""
import json, os, re, subprocess, sys, time
REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SWAPS = [
 (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
 (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
 (r"\.is_empty\(\)", ".is_empty() == false"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
 (r" \+= ", " -= "), (r" -= ", " += "), (r"\bif (?!let )(.+) \{$", r"if !(\1) {"),
 (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)\b", lambda m: str(int(m.group(1)) - 1)),
 (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
 (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"true_(bb|args)", r"false_\1"), (r"false_(bb|args)", r"true_\1"),
 (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"\bpush_back\b", "push_front"), (r"\bSome\((\w+)\) => \w.*", r"Some(\1) => None,"),
 (r"\.cloned\(\)", ".cloned().filter(|_| false)"), (r"\.unwrap_or\((\w+)\)", ".unwrap()"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
 (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bsrc\b", "dest"), (r"\bparams\(\)", "params()[..0]"), (r"'(.)'", r"'#'"), (r'"([^"{}]+)"', r'"\1x"'),
 (r'"([^"]*)\{\}([^"]*)"', r'"\1{}_\2"'), (r"\breturn\b.*;", "{}"), (r"\.zip\(", ".chain("), (r"^(\s+)(\w+!?.*\S.*;)$", r"\1{}"), (r"^(\s+)(\.\w+\(.*\))$", r"\1"),
 (r"\?;$", ".ok();"), (r"as usize", "as u8 as usize"), (r"as u32", "as u8 as u32"), (r"\.saturating_sub", ".wrapping_sub"), (r"\bErr\(", "Ok("), (r"^(\s+)(\w.*) => (.+),$", None),
]

def mutants(path):
    src = open(path).read().split("\n")
    end = next((i for i, l in enumerate(src) if l.strip() == "#[cfg(test)]"), len(src))
    out, seen = [], set()
    for i, l in enumerate(src[:end]):
        t = l.strip()
        if t.startswith("//"): continue
        if not t or t.startswith(("#[", "use ", "pub use", "mod ", "pub mod", "impl", "#!", "where", "pub fn", "fn ", "pub struct", "pub enum", "type ", "let ")) and not re.search(r"= .*(==|<|>|&&|\|\||\+|-|\.)", l):
            continue
        if "//" in l and not t.startswith("//"): continue
        for pat, rep in SWAPS:
            if rep is None:
                # swap the right sides of two arms that follow each other
                m, n = re.match(pat, l), re.match(pat, src[i + 1]) if i + 1 < end else None
                if m and n and m.group(3) != n.group(3):
                    out.append((i, [f"{m.group(1)}{m.group(2)} => {n.group(3)},", f"{n.group(1)}{n.group(2)} => {m.group(3)},"]))
                continue
            for m in re.finditer(pat, l):
                new = l[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + l[m.end():]
                if new != l and (i, new) not in seen:
                    seen.add((i, new))
                    out.append((i, [new]))
    return src, out

# checks by file, the likely ones first
KOOPA = ["C01", "C02", "C03", "C05", "C07", "C08", "C09", "C10", "C11", "C06", "C17", "C18", "C19", "C21", "C22", "C24", "C25", "C26", "C15", "C16", "C04", "C20"]
FIRST = {"front/span": ["C24", "C19"], "front/driver": ["C19"], "front/lexer": ["C24", "C02", "C19"], "front/ast": ["C24"], "front/token": ["C24"], "front/builder": ["C02", "C03"], "front/parser": ["C24", "C03", "C19"],
 "back/llvm": ["C06", "C11"], "back/generator": ["C25", "C11"], "back/": ["C01", "C11", "C06"], "ir/builder": ["C09"], "ir/dfg": ["C07", "C21"], "ir/layout": ["C08"], "ir/mod": ["C22", "C07"], "ir/types": ["C10"], "ir/values": ["C26", "C07", "C09"], "ir/entities": ["C26", "C22", "C07", "C08"], "opt/": ["C17"], "idman": ["C16"]}
LIB = {"raw/builder": ["C12", "C13", "C23"], "raw/generator": ["C13", "C12", "C14"], "raw/": ["C13", "C12", "C14"], "": ["C14", "C13"]}

def sh(cmd, log, timeout=600, **env):
    with open(log, "w") as f:
        try:
            return subprocess.run(cmd, shell=True, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env={**os.environ, **env}, cwd=V).returncode
        except subprocess.TimeoutExpired:
            return 124

def run(out, part, files):
    k, n = map(int, part.split("/"))
    done = set(l.split("\t")[0] for l in open(out)) if os.path.exists(out) else set()
    tmp = os.environ["BUG_NS"]
    log = tmp + "/mut.log"
    todo = []
    for f in files:
        src, ms = mutants(f"{REPO}/{f}")
        for j, m in enumerate(ms): todo.append((f, j, src, m))
    env = dict(CARGO_INCREMENTAL="1", KMON_FAST="1", VERIF_SEED="1", VERIF_TIER="quick")
    for f, j, src, (line, new) in todo[k::n]:
        key = f"{f}:{line + 1}:{j}"
        if key in done: continue
        # texts of panics are nobody's concern
        if new[0] != src[line] and re.search(r'panic!\(|expect\(|assert|unreachable|^\s*"[^"]*",?$', src[line]) and re.sub(r'"[^"]*"', '', new[0]) == re.sub(r'"[^"]*"', '', src[line]): continue
        t0 = time.time()
        new_src = src[:line] + new + src[line + len(new):]
        open(f"{REPO}/{f}", "w").write("\n".join(new_src))
        res = None
        try:
            if sh("cd /repo && cargo check --offline --workspace", log, 300, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS="-Awarnings") != 0: res = "nobuild"
            else:
                r = sh(f"bash /opt/vp/test.sh {tmp}/mt.json", log, 60)
                try: t = json.load(open(f"{tmp}/mt.json"))
                except Exception: t = None
                if r == 124 or t is None or t["failed"]: res = "tests"
            if res is None:
                g = f.split("/src/")[1]
                if f.startswith("lib"):
                    cs = next(c for p, c in LIB.items() if g.startswith(p))
                else:
                    first = next((c for p, c in FIRST.items() if p in g), [])
                    cs = first + [c for c in KOOPA if c not in first]
                missed = []
                for c in cs:
                    lim = {"C23": "0", "C12": "6", "C13": "6", "C14": "8"}.get(c, "4")
                    if c == "C23": continue
                    rc = sh(f"./check.sh {c}", log, 300, KMON_LIMIT=lim, **env)
                    txt = open(log, errors="replace").read()
                    if rc == 1 and "VIOLATION" in txt:
                        res = f"caught {c}"
                        break
                    if rc not in (0, 1): missed.append(f"{c}:rc{rc}")
                if res is None: res = "SURVIVED " + " ".join(missed)
        finally:
            open(f"{REPO}/{f}", "w").write("\n".join(src))
        with open(out, "a") as o:
            o.write(f"{key}\t{res}\t{time.time() - t0:.0f}s\t{src[line].strip()}\t=>\t{' '.join(x.strip() for x in new)}\n")

if sys.argv[1] == "list":
    tot = 0
    for f in sys.argv[2:]:
        n = len(mutants(f"{REPO}/{f}")[1]); tot += n
        print(f, n)
    print(tot)
else:
    run(sys.argv[2], sys.argv[3], sys.argv[4:])
