#!/usr/bin/env python3
"""mutate.py DIR [--workers N] [--limit N] [--only REGEX] [--first]: small systematic changes of the crate, and which check sees each.

Every mutant of /repo's non-test source that builds and passes the existing tests is run against the checks (from a
copy of /verif in DIR, on kept TLC answers, see memo_check.py) until one reports it.  DIR/results.json collects
{mutant: "tests" | "build" | "Cxx" | "MISSED"}; what is MISSED is read by hand: either it changes nothing a property
speaks of, or a check is too weak."""
import json, os, re, shutil, subprocess, sys, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.abspath(sys.argv[1])
opt = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
N = int(opt("--workers", "3"))
LIMIT = int(opt("--limit", "100000"))
ONLY = re.compile(opt("--only", "."))
ORDER = {"tokenizer": "C06 C10 C05 C27 C20 C11 C17 C07 C08 C12".split(), "common": "C02 C09 C08 C07 C27 C04 C21 C26 C28 C20".split(),
         "minify": "C17 C18 C12".split(), "query/grammar": "C02 C01 C20 C10 C19 C27 C11".split(),
         "schema/grammar": "C04 C03 C20 C10 C27".split(), "format": "C15 C13 C14 C16 C23 C25".split(),
         "query/format": "C15 C13 C23 C07".split(), "schema/format": "C15 C14 C23".split(),
         "ast": "C22 C28 C21 C26 C02 C04".split(), "error": "C25 C27 C20".split(), "helpers": "C25 C20 C02".split(),
         "position": "C25 C10 C26".split(), "lib": "C21 C02".split()}
ALL = ["C%02d" % i for i in range(1, 29)]

SUBS = [(r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" \+ 1\b", ""), (r" \+ (?=\w)", " - "),
        (r" - (?=\w)", " + "), (r" \+= ", " -= "), (r" \+= ", " = "), (r"(?<![\w!=])!(?=[\w(])(?!\[)", ""),
        (r"\bmany1\(", "many("), (r"\bmany\(", "many1("), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"),
        (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bmin\(", "max("), (r"\bends_with\(", "starts_with("),
        (r"\bstarts_with\(", "ends_with("), (r"\btrim_start_matches\(", "trim_matches("), (r"\.next_back\(\)", ".next()"),
        (r"\brfind\(", "find("), (r"\.lines\(\)", ".split('\\n')"), (r"\.skip\(punct\(\"[^\"]*\"\)\)", ""),
        (r"\.chars\(\)\.count\(\)", ".len()"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
        (r"\boptional\(punct\(\"(.)\"\)\)", r'punct("\1").map(Some)'), (r"saturating_add", "saturating_sub"),
        (r"\bsep_by1\(", "combine::sep_by("), (r"\bSome\(name_or_alias\)", "None"), (r"get_or_insert", "insert"),
        (r"is_ascii_digit", "is_numeric"), (r"is_ascii_hexdigit", "is_alphanumeric"), (r"\.replace\(r#", ".replacen(r#"),
        (r"\bfirst\b", "second_")]
FIELD = {"directives": "vec![]", "description": "None", "arguments": "vec![]", "position": "Default::default()",
         "default_value": "None", "variable_definitions": "vec![]", "type_condition": "None", "alias": "None",
         "query": "None", "mutation": "None", "subscription": "None", "fields": "vec![]", "name": "T::Value::from(\"x\")",
         "locations": "vec![]", "implements_interfaces": "vec![]"}


def mutants():
    src = os.path.join("/repo", "src")
    for d, _, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            text = open(p).read()
            end = text.find("#[cfg(test)]")
            code = text if end < 0 else text[:end]
            rel = os.path.relpath(p, "/repo")
            pos = 0
            for ln, line in enumerate(code.splitlines(True), 1):
                s = line.strip()
                if s.startswith(("//", "use ", "#[", "pub mod", "mod ", "debug_assert")) or "with_capacity" in s or ".expect(\"" in s:
                    pos += len(line)
                    continue
                done = set()

                def put(a, b, new, what):
                    t = text[:pos + a] + new + text[pos + b:]
                    if t not in done and t != text:
                        done.add(t)
                        return [("%s:%d:%d %s" % (rel, ln, a, what), rel, t)]
                    return []
                for pat, new in SUBS:
                    for m in re.finditer(pat, line):
                        n = m.expand(new) if "\\1" in new else new
                        yield from put(m.start(), m.end(), n, "%s -> %s" % (m.group(0), n))
                for m in re.finditer(r"(?<![\w.{'\"])(\d+)(?![\w.'\"}])", line):
                    for k in {int(m.group(1)) + 1, int(m.group(1)) - 1} - {-1}:
                        yield from put(m.start(), m.end(), str(k), "%s -> %d" % (m.group(0), k))
                for m in re.finditer(r"'(\\?[^']|\\u\{[0-9A-Fa-f]+\})'(?!\w)", line):
                    for k in ("'~'", "'a'"):
                        yield from put(m.start(), m.end(), k, "%s -> %s" % (m.group(0), k))
                for m in re.finditer(r"'\\?[^']'(\.\.='\\?[^']')? \| |\| '\\?[^']'(\.\.='\\?[^']')?(?= )|c @ '\\?.' \| ", line):
                    yield from put(m.start(), m.end(), "", "drop " + m.group(0))
                for m in re.finditer(r"\"((?:[^\"\\]|\\.)*)\"", line):
                    if m.group(1) and "'" not in line[max(0, m.start() - 1):m.start()]:
                        for k in (m.group(1)[:-1] if not m.group(1).endswith(("\\n", "\\\"", "\\\\")) else m.group(1) + "x", m.group(1) + " "):
                            yield from put(m.start(1), m.end(1), k, "%r -> %r" % (m.group(1), k))
                m = re.match(r"(\s*)(\w+),\n$", line)
                if m and m.group(2) in FIELD:
                    yield from put(m.end(1), len(line) - 1, "%s: %s," % (m.group(2), FIELD[m.group(2)]), "drop " + m.group(2))
                m = re.match(r"(\s*)if (?!let)(.*) \{\n$", line)
                if m:
                    yield from put(m.start(2), m.end(2), "!(%s)" % m.group(2), "negate if")
                    yield from put(m.start(2), m.end(2), "true", "if true")
                    yield from put(m.start(2), m.end(2), "false", "if false")
                if s.endswith(";") and not s.startswith(("let ", "return", "type ", "pub ", "}", "break", "continue")):
                    yield from put(0, len(line) - 1, "", "delete statement " + s[:60])
                m = re.match(r"\s*(?:parser\((\w+)[^)]*\)|\.skip\(|\.or\(parser).*\n$", line)
                if m and s.startswith(".skip(") and s.endswith(")"):
                    yield from put(0, len(line) - 1, "", "delete " + s)
                if re.match(r"\s*\.or\(.*\)\n$", line):
                    yield from put(0, len(line) - 1, "", "delete " + s)
                pos += len(line)


def main():
    os.makedirs(BASE, exist_ok=True)
    memo = os.path.join(BASE, "memo")
    os.makedirs(memo, exist_ok=True)
    store = os.path.join(BASE, "results.json")
    res = json.load(open(store)) if os.path.exists(store) else {}
    todo = queue.Queue()
    n = 0
    for m in mutants():
        if m[0] not in res and ONLY.search(m[0]) and n < LIMIT:
            todo.put(m)
            n += 1
    print(n, "mutants to do", flush=True)
    lock = threading.Lock()

    def worker(k):
        w = os.path.join(BASE, "w%d" % k)
        if not os.path.exists(w):
            os.makedirs(w)
            subprocess.run(["cp", "-a", "/repo", os.path.join(w, "repo")], check=True)
            subprocess.run("git -C %s archive HEAD | tar x -C %s/verif" % (VERIF, w) if False else
                           "mkdir -p %s/verif && git -C %s archive HEAD bin lib spec harness known_findings.txt | tar x -C %s/verif" % (w, VERIF, w),
                           shell=True, check=True)
        repo, verif = os.path.join(w, "repo"), os.path.join(w, "verif")
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(w, "target"), CARGO_NET_OFFLINE="true")
        while True:
            try:
                name, rel, text = todo.get_nowait()
            except queue.Empty:
                return
            path = os.path.join(repo, rel)
            orig = open(path).read()
            try:
                open(path, "w").write(text)
                r = subprocess.run("cargo build --offline -q", shell=True, cwd=repo, env=env, capture_output=True, text=True)
                if r.returncode:
                    out = "build"
                else:
                    try:
                        r = subprocess.run("cargo nextest run --offline --lib --tests --cargo-quiet", shell=True, cwd=repo,
                                           env=env, capture_output=True, text=True, timeout=120)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = 1
                    if rc:
                        out = "tests"
                    else:
                        key = rel[len("src/"):-3]
                        first = ORDER.get(key) or ORDER.get(os.path.basename(key), [])
                        cs = first if "--first" in sys.argv else first + [c for c in ALL if c not in first]
                        r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "memo_check.py"), verif, memo] + cs,
                                           capture_output=True, text=True, env=dict(os.environ, GQL_TARGET_DIR=os.path.join(w, "htarget")))
                        hit = [l for l in r.stdout.splitlines() if " CAUGHT " in l]
                        bad = [l for l in r.stdout.splitlines() if " ERROR " in l]
                        out = hit[0][:3] if hit else "MISSED" + (" with " + bad[0] if bad else "") if r.returncode in (0, 1) and r.stdout else "?? " + r.stderr[-300:]
            finally:
                open(path, "w").write(orig)
            with lock:
                res[name] = out
                json.dump(res, open(store, "w"), indent=0)
                if out not in ("build", "tests"):
                    print(out[:200], "|", name, flush=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(N)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    c = {}
    for v in res.values():
        v = v if v in ("build", "tests") or v.startswith("MISSED") else "caught" if re.match(r"C\d\d", v) else "??"
        c[v] = c.get(v, 0) + 1
    print(c)


if "--list" in sys.argv:
    for m in mutants():
        print(m[0])
else:
    main()
