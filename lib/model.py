"""Running the specification under TLC."""
import json, os, re, shutil, struct, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ModelError(Exception):
    pass


class Stats:
    """what TLC did in this run"""
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.runs = 0
        self.wall = 0.0

    def add(self, gen, distinct, wall):
        self.transitions += gen
        self.states += distinct
        self.runs += 1
        self.wall += wall


STATS = Stats()


def tlc(module, cfg, env, on_line, timeout=800, workers=None, scratch=None):
    """run TLC; on_line(dict) gets every JSON line the specification prints"""
    t0 = time.time()
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    e = dict(os.environ)
    e.update(env)
    args = ["java", "-Xss256m", "-Xmx12g", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
            "-workers", str(workers or os.cpu_count() or 4), "-metadir", meta, "-noGenerateSpecTE",
            "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]
    tail = []
    gen = distinct = None
    try:
        p = subprocess.Popen(args, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             encoding="utf-8", errors="replace")
        try:
            for line in p.stdout:
                if line.startswith('"{'):
                    on_line(line)
                    if time.time() - t0 > timeout:
                        raise ModelError("TLC timed out")
                else:
                    tail.append(line)
                    m = re.match(r"(\d+) states generated, (\d+) distinct", line)
                    if m:
                        gen, distinct = int(m.group(1)), int(m.group(2))
            p.wait(timeout=60)
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = "".join(l for l in tail if not l.startswith(("Parsing", "Semantic", "Linting")))
    if p.returncode != 0 or "No error has been found" not in text or gen is None:
        raise ModelError("TLC failed on %s: %s" % (module, text[-4000:]))
    STATS.add(gen, distinct, time.time() - t0)
    return gen, distinct


def decode(line):
    return json.loads(json.loads(line))


def run_jobs(jobs, scratch=None, cfg="GqlMachine.cfg", timeout=800):
    """expected outcomes of the jobs: {id: [outcome, ...]}"""
    if not jobs:
        return {}
    res = {}
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False, dir=scratch)
    try:
        for j in jobs:
            f.write(json.dumps({"id": j["id"], "src": codes(j["src"]), "req": j["req"],
                                **({"ast": j["ast"]} if "ast" in j else {})}) + "\n")
        f.close()

        def got(line):
            d = decode(line)
            res[d["id"]] = d["out"]
        tlc("GqlMachine", cfg, {"GQL_JOBS": f.name}, got, timeout=timeout, scratch=scratch)
    finally:
        os.unlink(f.name)
    if len(res) != len(jobs):
        raise ModelError("TLC reported %d of %d jobs" % (len(res), len(jobs)))
    return res


def codes(s):
    return [ord(c) for c in s] if isinstance(s, str) else s


def text(cs):
    return "".join(chr(c) for c in cs if c >= 0)


def export_grammar(scratch=None):
    got = []
    tlc("GqlExport", "GqlExport.cfg", {}, lambda l: got.append(decode(l)), workers=1, scratch=scratch)
    return got[0]


def float_bits(cs):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", float("".join(map(chr, cs)))))[0]


def norm(x):
    """floats of the specification are lexemes; give them by their bits, as the harness does"""
    if isinstance(x, list) and x:
        if isinstance(x[0], int):
            return x
        if len(x) == 2 and x[0] == "float" and isinstance(x[1], list):
            return ["float", float_bits(x[1])]
        return [norm(y) for y in x]
    return x
