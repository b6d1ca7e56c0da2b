#!/usr/bin/env python3
"""Systematic small changes to /repo, to find what the checks do not notice.

gen            lists the mutants (JSON lines) to /tmp/mut/mutants.jsonl
run N [regex]  runs them with N workers, each on copies of /repo and /verif under /tmp/mut; appends
               to /tmp/mut/results.jsonl and skips those that are there already
"""
import json, os, re, resource, shutil, subprocess, sys, threading, queue

BASE = "/tmp/mut"
REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

# (regex, replacements)
OPS = [
    (r"==", ["!="]), (r"!=", ["=="]),
    (r"(?<![-=<|])<=", ["<", "=="]), (r"(?<![-=>|])>=", [">", "=="]),
    (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]),
    (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["+"]),
    (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"&=", ["|=", "="]), (r"\|=", ["&=", "="]),
    (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]),
    (r"!(?=[a-z(])(?<![a-z_]!)", [""]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.'\"])0(?![\w.x'\"])", ["1"]), (r"(?<![\w.'\"])1(?![\w.'\"])", ["0", "2"]),
    (r"(?<![\w.'\"])([2-9]|\d\d+)(?![\w.'\"])", [lambda m: str(int(m.group(0)) + 1), lambda m: str(int(m.group(0)) - 1)]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\.first_mut\(\)", [".last_mut()"]), (r"\.last_mut\(\)", [".first_mut()"]),
    (r"\.max\(", [".min("]), (r"\.min\(", [".max("]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]),
    (r"\.rev\(\)", [""]), (r"\.iter\(\)(?=\.)", [".iter().rev()", ".iter().skip(1)"]),
    (r"\.into_iter\(\)(?=\.)", [".into_iter().rev()", ".into_iter().skip(1)"]),
    (r"\.next\(\)", [".last()"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\.skip\(([^()]*)\)", [r".skip(\1 + 1)", ""]), (r"\.take\(([^()]*)\)", [r".take(\1 + 1)", ""]),
    (r"\.take_while\(", [".filter("]), (r"\.skip_while\(", [".filter("]),
    (r"\.filter\(", [".skip_while(", ".take_while("]),
    (r"\.starts_with\(", [".ends_with("]), (r"\.ends_with\(", [".starts_with("]),
    (r"\.strip_prefix\(", [".strip_suffix("]), (r"\.strip_suffix\(", [".strip_prefix("]),
    (r"\.or_default\(\)", [""]),
    (r"\.saturating_sub\(", [".wrapping_sub("]), (r"\.saturating_add\(", [".wrapping_add("]),
    (r"\.checked_sub\(", [".checked_add("]), (r"\.checked_add\(", [".checked_sub("]),
    (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]),
    (r"(?<=[\w)])\.\.(?=[\w(])(?!=)", ["..="]), (r"\.\.=", [".."]),
    (r"\bif (?!let )([^{}]+) \{", ["if true {", "if false {"]),
    (r"\bwhile (?!let )([^{}]+) \{", ["while false {"]),
    (r"\bif (?!let )([^{}=]+)(?= =>)", ["if true", "if false"]),
    (r"\bSome\(([^()]*(?:\([^()]*\))?[^()]*)\)(?=[;,\n]|$)", ["None"]),
    (r"\.clone\(\)(?=[;,)])", [".clone().into()"]),
    (r"std::mem::take\(([^()]*)\)", [r"\1.clone()"]),
    (r"\bu32::MAX\b", ["0"]), (r"\busize::MAX\b", ["0"]),
    (r"\.pop\(\)", [".last().cloned()"]),
    (r"\.push\(", [".insert(0, "]), (r"\.append\(", [".extend_from_slice("]),
    (r"\.insert\(0, ", [".push("]),
    (r"\.sort_unstable\(\);", [".reverse();", ";"]), (r"\.truncate\(([^()]*)\)", [r".truncate(\1 + 1)"]),
    (r"\.to_ascii_lowercase\(\)", [".to_ascii_uppercase()", ""]), (r"\.to_ascii_uppercase\(\)", [".to_ascii_lowercase()", ""]),
    (r"\.is_ascii_(\w+)\(\)", [".is_ascii()"]),
    (r"\.unwrap_or\(([^()]*)\)", [".unwrap_or_default()"]),
    (r"\bOk\(\(\)\)", ["Err(Default::default())"]),
    (r"\bmatch ([^{}]+) \{", []),
    (r"'(.)'", ["'~'"]), (r'"([^"\\]+)"', ['""']),
]


def code_lines(path):
    """Line numbers of code outside tests and comments."""
    with open(path) as fh:
        lines = fh.read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if re.match(r"#\[cfg\(test\)\]", l) and i + 1 < len(lines) and "mod" in lines[i + 1] and "{" in lines[i + 1]:
            break
        t = l.strip()
        if not t or t.startswith(("//", "use ", "pub use ", "#[", "#![", "pub mod ", "mod ")):
            continue
        out.append(i)
    return lines, out


def gen():
    os.makedirs(BASE, exist_ok=True)
    n = 0
    with open(f"{BASE}/mutants.jsonl", "w") as out:
        for crate in sorted(os.listdir(f"{REPO}/crates")):
            src = f"{REPO}/crates/{crate}/src"
            for f in sorted(os.listdir(src)):
                if not f.endswith(".rs") or f == "tests.rs":
                    continue
                path = f"{src}/{f}"
                lines, idx = code_lines(path)
                seen = set()

                def put(i, new, what, j=None):
                    nonlocal n
                    key = (i, j, new)
                    if key in seen or new == "\n".join(lines[i:(j or i) + 1]):
                        return
                    seen.add(key)
                    out.write(json.dumps({"id": f"{crate}/{f}:{i + 1}#{len(seen)}", "crate": crate, "file": f"crates/{crate}/src/{f}",
                                          "line": i, "last": j or i, "new": new, "what": what}) + "\n")
                    n += 1

                for i in idx:
                    l = lines[i]
                    body = re.split(r"\s//", l)[0]
                    for rx, reps in OPS:
                        for m in re.finditer(rx, body):
                            for rep in reps:
                                r = rep(m) if callable(rep) else m.expand(rep)
                                put(i, l[:m.start()] + r + l[m.end():], f"{m.group(0)} -> {r}")
                    t = l.strip()
                    # a statement on one line
                    if t.endswith(";") and not t.startswith(("let ", "type ", "const ", "static ", "pub ", "fn ", "}", ")", "]", ".")):
                        prev = lines[i - 1].strip()
                        if prev.endswith(("{", ";", "}")) or prev.startswith("//"):
                            put(i, "", f"delete: {t}")
                    # statements over lines
                    if not t.startswith(("let ", "type ", "const ", "static ", "pub ", "fn ", "}", ")", "]", ".", "impl", "struct", "enum", "trait", "for ", "match ")):
                        ind = len(l) - len(l.lstrip())
                        if t.endswith(("{", "(", "[")) and ind >= 4:
                            for j in range(i + 1, min(i + 30, len(lines))):
                                if len(lines[j]) - len(lines[j].lstrip()) == ind and lines[j].strip() in ("}", ");", "];", "});"):
                                    put(i, "", f"delete block: {t}", j)
                                    break
                                if len(lines[j]) - len(lines[j].lstrip()) == ind and lines[j].strip().startswith("}"):
                                    break
                    # a match arm on one line
                    m = re.match(r"^\s+(.+) => (.+),$", l)
                    if m and i + 1 < len(lines):
                        put(i, "", f"delete arm: {t}")
                        m2 = re.match(r"^\s+(.+) => (.+),$", lines[i + 1])
                        if m2:
                            ind = l[:len(l) - len(l.lstrip())]
                            put(i, f"{ind}{m.group(1)} => {m2.group(2)},\n{ind}{m2.group(1)} => {m.group(2)},", "swap arms", i + 1)
                    # swapped neighbours
                    if t.endswith(";") and i + 1 < len(lines) and lines[i + 1].strip().endswith(";") and \
                            len(lines[i + 1]) - len(lines[i + 1].lstrip()) == len(l) - len(l.lstrip()) and not t.startswith((")", "}", ".", "pub ", "type ")):
                        put(i, lines[i + 1] + "\n" + l, "swap statements", i + 1)
    print(n, "mutants")


COMPS = {
    "text": ("text", "mon-text"), "chain": ("chain", "mon-chain"), "parse": ("parse", "mon-parse"),
    "paths": ("paths", "mon-paths"), "pm": ("pm", "mon-pm"), "topo": ("topo", "mon-topo"),
    "small": ("small", "mon-small"), "sgen": ("sgen", "mon-sgen"),
}
# crate: (component, properties), the likeliest first
RUNS = {
    "text-pos": [("text", "C01 C02 C03 C04 C05"), ("small", "C32")],
    "apply-changes": [("text", "C01 C02")],
    "chain-map": [("chain", "C06 C07")],
    "event-parse": [("parse", "C09 C10 C11 C12 C13 C14 C36")],
    "paths": [("paths", "C15 C16 C17")],
    "pattern-match": [("pm", "C18 C19 C35 C38 C39")],
    "topo-sort": [("topo", "C20 C21 C22")],
    "syntax-gen": [("sgen", "C23 C25 C24")],
    "write-rs-tokens": [("sgen", "C25")],
    "text-size-util": [("small", "C26")], "uniq": [("small", "C26")], "idx": [("small", "C26")],
    "str-process": [("small", "C27 C36")],
    "identifier-case": [("small", "C28"), ("sgen", "C23")],
    "code-h2-md-map": [("small", "C29")],
    "always": [("small", "C30 C26")],
    "str-util": [("small", "C31")], "fast-hash": [("small", "C31")],
    "fmt-util": [("small", "C32")], "diagnostic": [("small", "C32")],
    "elapsed": [("small", "C33")], "char-name": [("small", "C34")],
    "token": [("parse", "C09 C10")],
}


class Worker:
    """Copies of /repo and of the harness, one directory each, tied together by an edited path."""

    def __init__(self, k):
        self.dir = f"{BASE}/w{k}"
        self.repo, self.verif = f"{self.dir}/repo", f"{self.dir}/verif"
        if not os.path.exists(self.repo):
            os.makedirs(self.dir, exist_ok=True)
            subprocess.run(["git", "clone", "-q", REPO, self.repo], check=True)
        for cmd in ("git fetch -q origin HEAD", "git checkout -q -- .", "git reset -q --hard FETCH_HEAD"):
            subprocess.run(cmd.split(), cwd=self.repo, check=True)
        os.makedirs(self.verif, exist_ok=True)
        # copies keep the time of the original, so that what did not change is not built again
        subprocess.run(["cp", "-a", "--update", f"{VERIF}/harness", self.verif + "/"], check=True)
        for d, ds, fs in os.walk(self.verif):
            ds[:] = [x for x in ds if x != "target"]
            for f in fs:
                p = os.path.join(d, f)
                if f.endswith((".toml", ".rs", ".lock")):
                    s = open(p).read()
                    t = re.sub(r'(?<![\w/])/repo(?=["/\'])', self.repo, s)
                    t = t.replace("../../../repo/", f"{self.repo}/")
                    if s != t:
                        open(p, "w").write(t)

    def sh(self, cmd, timeout, cwd=None, env=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
        e["CARGO_NET_OFFLINE"] = "true"
        e["CARGO_BUILD_JOBS"] = "2"
        e.update(env or {})
        p = subprocess.Popen(cmd, shell=isinstance(cmd, str), cwd=cwd or self.repo, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors="replace",
                             start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return 124, ""

    def one(self, m):
        path = f"{self.repo}/{m['file']}"
        with open(f"{REPO}/{m['file']}") as fh:
            lines = fh.read().split("\n")
        lines[m["line"]:m["last"] + 1] = m["new"].split("\n")
        try:
            with open(path, "w") as fh:
                fh.write("\n".join(lines))
            env = {"CARGO_TARGET_DIR": f"{self.dir}/target"}
            rc, _ = self.sh("cargo build --workspace --offline -q", 300, env={"CARGO_TARGET_DIR": f"{self.dir}/target-repo"})
            if rc:
                return "no build", None
            rc, _ = self.sh("cargo test --workspace --offline -q", 60, env={"CARGO_TARGET_DIR": f"{self.dir}/target-repo"})
            if rc:
                return "tests", None
            tails = []
            for comp, props in RUNS[m["crate"]]:
                d, exe = COMPS[comp]
                rc, out = self.sh("cargo build --offline -q", 600, f"{self.verif}/harness/{d}", env)
                if rc:
                    return "caught", f"{comp} does not build: {out[-300:]}"
                for p in props.split():
                    scratch = f"{self.dir}/scratch"
                    shutil.rmtree(scratch, ignore_errors=True)
                    os.makedirs(scratch)
                    rc, out = self.sh([f"{self.dir}/target/debug/{exe}", "--prop", p, "--tier", "quick", "--seed", "1", "--shard", "0",
                                       "--shards", "1", "--mine", "", "--hang-secs", "20", "--max-secs", str(SECS),
                                       "--out", f"{scratch}.json"], 300, f"{self.verif}/harness/{d}",
                                      {**env, "VMON_SCRATCH": scratch, "VMON_HARNESS": f"{self.verif}/harness",
                                       "VMON_TARGET": env["CARGO_TARGET_DIR"], "VMON_TIER": "quick"})
                    if rc not in (0, 3):
                        return "caught", f"{p} {rc} {out[-200:] if rc != 1 else ''}"
                    tails.append((p, rc))
            return "missed", tails
        finally:
            shutil.copyfile(f"{REPO}/{m['file']}", path)


SECS = 6


def run(n, rx):
    done = set()
    res = f"{BASE}/results.jsonl"
    if os.path.exists(res):
        done = {json.loads(l)["id"] for l in open(res)}
    q = queue.Queue()
    for l in open(f"{BASE}/mutants.jsonl"):
        m = json.loads(l)
        if m["id"] not in done and re.search(rx, m["id"]):
            q.put(m)
    print(q.qsize(), "to do", flush=True)
    lock = threading.Lock()

    def work(k):
        w = Worker(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            r, by = w.one(m)
            with lock, open(res, "a") as fh:
                fh.write(json.dumps({**m, "result": r, "by": by}) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if sys.argv[1] == "gen":
    gen()
else:
    run(int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else ".")
