#!/usr/bin/env python3
"""Mutation analysis of the monitors (a development tool; no check uses it).

mutants.py OUT.jsonl [workers] [max] [seed] [file-regex]

Makes small changes to copies of /repo under /tmp/mut, keeps those that compile and pass the baseline tests and runs
the quick checks against each until one reports a violation. What no check reports is a survivor: either equivalent or
a gap.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
OUT = sys.argv[1]; W = int(sys.argv[2]) if len(sys.argv) > 2 else 8
MAX = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
FILES = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
ROOT = "/tmp/mut"
ORDER = ["C02","C12","C13","C07","C03","C15","C17","C22","C04","C10","C14","C05","C06","C09","C11","C16","C18","C19","C01","C08","C23","C25","C26","C20"]
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def spans(text):
    """byte ranges of lines that are code outside of tests"""
    out = []; skip = None; depth = 0; pending = False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if skip is None and re.match(r"#\[(cfg\(test\)\]|cfg\(all\(test|test\])", s):
            pending = True; continue
        if pending:
            if s.startswith("#["): continue
            pending = False
            if "{" in s:
                skip = 0
            else:
                continue
        if skip is not None:
            skip += l.count("{") - l.count("}")
            if skip <= 0: skip = None
            continue
        if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "extern", "}", "macro_rules")): continue
        out.append(i)
    return out

SUB = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - (?=[a-z0-9])", " + "), (r" \* ", " / "),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".len() > 1"),
    (r"!(?=[a-z(])(?!\()", ""), (r"\bif ", "if true || "), (r"\bif ", "if false && "),
    (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("), (r"\.contains\(", ".starts_with("),
    (r"many0\(", "many1("), (r"many1\(", "many0("), (r"tag_no_case\(", "tag("), (r"\btag\(", "tag_no_case("),
    (r"\bcut\(", "("), (r"\bopt\(", "map(|x| x, Some)("), (r"\.rev\(\)", ""), (r"\.ok\(\)\?", ".unwrap()"),
    (r"\bSome\(", "None.or(Some("), (r"\.trim\(\)", ""), (r"\.to_uppercase\(\)", ".to_string()"),
    (r"\.to_ascii_uppercase\(\)", ".to_string()"), (r"unwrap_or_default\(\)", "unwrap()"),
    (r"\bspace0\b", "multispace0"), (r"\bmultispace0\b", "space0"), (r"\bSecond\b", "Second"),
    (r"\.and_then\(", ".map("), (r"\.or_else\(.*?\)(?=[\s;,)]|$)", ""), (r"\.or\(.*?\)(?=[\s;,)]|$)", ""),
    (r"\bStart\b", "End"), (r"\bEnd\b", "Start"), (r"from_str", "from_str"), (r"\.first\(\)", ".last()"), (r"\.next\(\)", ".last()"),
    (r"\.push\(", ".insert(0, "), (r"\.extend\(", ".append(&mut "), (r"eq_ignore_ascii_case\(", "eq("),
]
def mutants():
    res = []
    # the text of messages, and the bound on nesting, are not part of any property
    boring = re.compile(r"context\(|^const MAX_DEPTH|^missing_|doc_markdown|^\"[a-z ]+\",$|describe_error|columns?\b")
    for d, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            path = os.path.join(d, f); rel = os.path.relpath(path, "/repo")
            if rel in ("src/assert.rs", "src/repeats.rs", "src/period.rs", "src/parser/tests.rs") or not FILES.search(rel): continue
            text = open(path).read(); lines = text.split("\n")
            for i in spans(text):
                l = lines[i]; code = l.split(" //")[0]
                if boring.search(l.strip()) and "tag(" not in l: continue
                seen = set()
                def add(new):
                    if new != l and new not in seen:
                        seen.add(new); res.append((rel, i, l, new))
                for a, b in SUB:
                    for m in re.finditer(a, code):
                        # not inside of a string literal
                        if code[:m.start()].count('"') % 2: continue
                        add(l[:m.start()] + re.sub(a, b, l[m.start():], count=1))
                for m in re.finditer(r'"([^"\\]+)"', code):
                    s = m.group(1)
                    if "{" in s: continue
                    add(l[:m.start(1)] + s + "X" + l[m.end(1):])
                    add(l[:m.start(1)] + s[:-1] + l[m.end(1):])
                    if s.lower() != s: add(l[:m.start(1)] + s.lower() + l[m.end(1):])
                for m in re.finditer(r"'(\\?.)'", code):
                    for c in ("'x'", "' '", "'\\t'"):
                        add(l[:m.start()] + c + l[m.end():])
                for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", code):
                    if code[:m.start()].count('"') % 2: continue
                    n = int(m.group(1))
                    for k in {n + 1, max(n - 1, 0)}: add(l[:m.start()] + str(k) + l[m.end():])
                s = code.strip()
                if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "pub ")): add(re.match(r"\s*", l).group() + "();" )
                if re.match(r"\.\w+\(.*\)[,;]?$", s) and not s.endswith(";"): add("")
                if re.match(r".*=> .*,$", s): add("")
                # swap with the next line
                if i + 1 < len(lines) and s.endswith(",") and lines[i + 1].strip().endswith(",") and lines[i+1].strip() != s and "(" in s and not re.search(r"=>|^\w+: |^\"", s + "\n" + lines[i + 1].strip(), re.M):
                    res.append((rel, i, l + "\n" + lines[i + 1], lines[i + 1] + "\n" + l))
                if i + 1 < len(lines) and s.endswith(";") and lines[i + 1].strip().endswith(";"):
                    res.append((rel, i, l + "\n" + lines[i + 1], lines[i + 1] + "\n" + l))
    return res

def run(cmd, env, cwd, timeout):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace")

lock = threading.Lock()
def worker(k, q):
    w = f"{ROOT}/w{k}"; repo = f"{w}/repo"; ver = f"{w}/verif"
    if not os.path.exists(w):
        os.makedirs(w)
        shutil.copytree("/repo", repo, symlinks=True)
    if os.path.exists(ver): shutil.rmtree(ver)
    os.makedirs(ver)
    for x in ("harness", "miri", "check.sh", "known_findings.jsonl", "properties.jsonl", "tools"):
        (shutil.copytree if os.path.isdir("/verif/" + x) else shutil.copy)("/verif/" + x, f"{ver}/{x}")
    for d, _, fs in os.walk(ver):
        for f in fs:
            p = os.path.join(d, f); t = open(p).read()
            if "/repo" in t: open(p, "w").write(t.replace("/repo", repo))
    os.chmod(f"{ver}/check.sh", 0o755)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        CARGO_PROFILE_DEV_DEBUG="0", TZ="UTC", CARGO_INCREMENTAL="1", CARGO_TARGET_DIR=f"{w}/target")
    env2 = dict(os.environ, MON_THREADS="1", MON_SCALE=os.environ.get("MUT_SCALE", "0.15"), VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try: n, (rel, i, old, new) = q.get_nowait()
        except queue.Empty: return
        path = f"{repo}/{rel}"; orig = open("/repo/" + rel).read()
        lines = orig.split("\n")
        k2 = old.count("\n") + 1
        lines[i:i + k2] = new.split("\n")
        open(path, "w").write("\n".join(lines))
        rec = dict(n=n, file=rel, line=i + 1, old=old.strip(), new=new.strip())
        try:
            rc, out = run(["cargo", "check", "--offline", "-q", "--all-features"], env, repo, 300)
            if rc != 0: rec["result"] = "no build"
            else:
                rc, out = run(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "--", "--test-threads", "2"], env, repo, 600)
                failed = re.findall(r"^test .* (?:FAILED|failed)$", out, re.M)
                if rc != 0: rec["result"] = "tests"
                else:
                    rec["result"] = "SURVIVED"; rec["runs"] = []
                    for c in ORDER:
                        rc, out = run([f"{ver}/check.sh", c, "quick"], env2, ver, 1500)
                        if rc == 1:
                            rec["result"] = "killed"; rec["by"] = c
                            m = re.search(r"^.*(?:violation|VIOLATION).*$", out, re.M)
                            rec["how"] = out[-300:]
                            break
                        if rc != 0: rec["runs"].append((c, rc, out[-300:]))
        finally:
            open(path, "w").write(orig)
        with lock:
            open(OUT, "a").write(json.dumps(rec) + "\n")

done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r["file"], r["old"], r["new"]))
ms = mutants(); print(len(ms), "mutants")
random.Random(SEED).shuffle(ms)
ms = [m for m in ms if (m[0], m[2].strip(), m[3].strip()) not in done][:MAX]
q = queue.Queue()
for n, m in enumerate(ms): q.put((n, m))
ts = [threading.Thread(target=worker, args=(k, q)) for k in range(W)]
for t in ts: t.start()
for t in ts: t.join()
