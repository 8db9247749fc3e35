"""A check: what the specification says, what the crate does, and the report."""
import json, os, random, resource, select, shutil, subprocess, sys, tempfile, threading, time
import model, gen

VERIF = model.VERIF
TARGET = os.environ.get("GQL_TARGET_DIR") or os.path.join(VERIF, "build", "target")
BIN = os.path.join(TARGET, "debug", "gql-conformance")
WORKERS = min(8, os.cpu_count() or 4)


class BuildError(Exception):
    pass


class Case:
    """one test: a text (or tree) and requests, with the outcomes the specification expects"""
    __slots__ = ("src", "req", "rep", "ast", "exp", "tag", "got")

    def __init__(self, src, req, exp=None, rep="str", ast=None, tag=None):
        self.src = src
        self.req = req
        self.exp = exp
        self.rep = rep
        self.ast = ast
        self.tag = tag
        self.got = None

    def json(self, i):
        d = {"id": i, "rep": self.rep, "src": model.codes(self.src), "req": self.req}
        if self.ast is not None:
            d["ast"] = self.ast
        return d


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.rng = random.Random("%s/%s/%d" % (pid, tier, seed))
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))
        self.violations = []
        self.replayed = 0
        self.kinds = {}
        self.samples = []
        self.notes = {}
        self.grammar = None
        self.build_error = None
        self.build_thread = None
        self.exhaustive = []
        self.budget = 14 if self.quick else 400    # seconds for open-ended exploration

    # ------------------------------------------------------------- set-up
    def start_build(self):
        def go():
            env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
            r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                self.build_error = r.stdout[-4000:]
        self.build_thread = threading.Thread(target=go)
        self.build_thread.start()

    def prod(self):
        if self.grammar is None:
            self.grammar = model.export_grammar(self.scratch)["prod"]
        return self.grammar

    def gen(self):
        return gen.Gen(self.prod(), self.rng)

    def elapsed(self):
        return time.time() - self.t0

    def close(self):
        if self.build_thread:
            self.build_thread.join()
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ------------------------------------------------ what the model says
    def expect(self, cases, invariants=()):
        """have TLC run the library machine on the cases"""
        if not cases:
            return cases
        jobs = [{"id": i, "src": c.src, "req": c.req, **({"ast": c.ast} if c.ast is not None else {})}
                for i, c in enumerate(cases)]
        cfg = self.machine_cfg(invariants)
        res = model.run_jobs(jobs, scratch=self.scratch, cfg=cfg)
        for i, c in enumerate(cases):
            c.exp = model.norm(res[i])
        return cases

    def machine_cfg(self, invariants):
        p = os.path.join(self.scratch, "machine.cfg")
        with open(p, "w") as f:
            f.write("INIT Init\nNEXT Next\nVIEW view\nCHECK_DEADLOCK FALSE\n")
            if invariants:
                f.write("INVARIANTS %s\n" % " ".join(invariants))
        return p

    def tour(self, start, nopen, depth, fine=False, req=None):
        """every parser configuration within the bounds x every token"""
        seen = {}
        req = req or [["parse", start]]

        def got(line):
            d = model.decode(line)
            t = model.text(d["src"])
            if t not in seen:
                seen[t] = Case(t, req, [model.norm(d["out"])])
        model.tlc("GqlTour", "GqlTour.cfg",
                  {"GQL_START": start, "GQL_OPEN": str(nopen), "GQL_DEPTH": str(depth),
                   "GQL_FINE": "yes" if fine else "no"}, got, scratch=self.scratch)
        self.exhaustive.append("tour of %s: every parser configuration with at most %d open brackets and stack "
                               "height %d%s, times every kind of token: %d texts"
                               % (start, nopen, depth, ", telling apart which optional parts were present" if fine else "",
                                  len(seen)))
        return list(seen.values())

    def sentences(self, kind, confs, style=None, invariants=False):
        """every document of few tokens; confs: (beginning, terminals, most tokens).  The requests are parse and, if a
        style is given, print, reread and reprint; the outcomes of the first two come with the cases"""
        f = os.path.join(self.scratch, "sentence.ndjson")
        with open(f, "w") as o:
            for pre, letters, most in confs:
                o.write(json.dumps({"letters": letters.split(), "pre": pre.split(), "max": most,
                                    "ind": style[0] if style else -1, "multi": bool(style and style[1])}) + "\n")
        req = [["parse", kind]] + ([["print"] + list(style), ["reread"], ["reprint"]] if style else [])
        seen = {}

        def got(line):
            d = model.decode(line)
            t = model.text(d["src"])
            if t not in seen:
                seen[t] = Case(t, req, [model.norm(x) for x in d["out"]])
        model.tlc("GqlSentence", "GqlSentence.cfg" if invariants else "GqlSentenceFast.cfg",
                  {"GQL_SENTENCE": f, "GQL_START": kind, "GQL_OPEN": "9", "GQL_DEPTH": "99", "GQL_FINE": "no"}, got, scratch=self.scratch)
        for pre, letters, most in confs:
            self.exhaustive.append("every document %s of at most %d %stokens among %s"
                                   % ("that begins `%s`," % pre if pre else "", most, "further " if pre else "", letters))
        return list(seen.values())

    def words(self, confs, invariants=True):
        """every word over an alphabet, in a context; confs: dicts letters, pre, post, min, max, req, tag"""
        f = os.path.join(self.scratch, "enum.ndjson")
        with open(f, "w") as o:
            for c in confs:
                o.write(json.dumps({"letters": [model.codes(x) for x in c["letters"]], "pre": model.codes(c["pre"]),
                                    "post": model.codes(c["post"]), "min": c.get("min", 0), "max": c["max"],
                                    "req": c["req"]}) + "\n")
        seen = {}

        def got(line):
            d = model.decode(line)
            t = model.text(d["src"])
            c = confs[d["id"] - 1]
            key = (t, json.dumps(c["req"]))
            if key not in seen:
                seen[key] = Case(t, c["req"], model.norm(d["out"]), tag=c.get("tag"))
        model.tlc("GqlEnum", "GqlEnum.cfg" if invariants else "GqlEnumFast.cfg", {"GQL_ENUM": f}, got,
                  scratch=self.scratch)
        for c in confs:
            if c["max"] > 1:
                self.exhaustive.append("all words of %d..%d letters of %s between %s and %s"
                                       % (c.get("min", 0), c["max"], json.dumps(c["letters"]), json.dumps(c["pre"]),
                                          json.dumps(c["post"])))
        return list(seen.values())

    def read_texts(self, texts, start):
        """what the specification reads in texts the crate produced (None: rejected)"""
        cs = self.expect([Case(t, [["parse", start]]) for t in texts])
        return [c.exp[0][1] if c.exp[0][0] == "ok" else None for c in cs]

    def min_texts(self, texts):
        """what the specification minifies texts the crate produced to (None: rejected)"""
        cs = self.expect([Case(t, [["minify"]]) for t in texts])
        return [model.text(c.exp[0][1]) if c.exp[0][0] == "ok" else None for c in cs]

    # ------------------------------------------------- what the crate does
    def _built(self):
        if self.build_thread:
            self.build_thread.join()
            self.build_thread = None
        if self.build_error:
            raise BuildError(self.build_error)

    def threads(self, cases, kind, n):
        """n threads of one process do all the cases at once; sets case.got to a list of n outcomes of each"""
        self._built()
        f = os.path.join(self.scratch, "threads.jobs")
        with open(f, "w") as o:
            for i, c in enumerate(cases):
                o.write(json.dumps(c.json(i)) + "\n")
                c.got = []
        with open(f) as inp:
            try:
                p = subprocess.run([BIN, "--threads", str(n)], stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.scratch, timeout=200)
                text = p.stdout
            except subprocess.TimeoutExpired as e:
                text = e.stdout or b""
        for line in text.split(b"\n")[:-1]:
            d = json.loads(line)
            cases[d["id"]].got.append(d["out"] if "out" in d else ["panic"])
        self.replayed += n * len(cases)
        self.kinds[kind] = self.kinds.get(kind, 0) + n * len(cases)
        return cases

    def replay(self, cases, kind, quiet=30.0, workers=None):
        """run the cases on the crate; sets case.got to the list of outcomes, or ["panic"|"abort"|"hang"]"""
        if not cases:
            return cases
        self._built()
        n = workers or min(WORKERS, max(1, len(cases) // 20))
        # neighbours differ in cost: deal the cases out
        chunks = [list(range(k, len(cases), n)) for k in range(n)]
        errs = []

        def work(ids):
            try:
                self._chunk(cases, ids, quiet)
            except Exception as e:      # noqa
                errs.append(e)
        ts = [threading.Thread(target=work, args=(c,)) for c in chunks]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        self.replayed += len(cases)
        self.kinds[kind] = self.kinds.get(kind, 0) + len(cases)
        for c in self.rng.sample(cases, min(2, len(cases))):
            if len(self.samples) < 12:
                self.samples.append({"kind": kind, "text": c.src[:400] if isinstance(c.src, str) else c.src,
                                     "requests": c.req, "expected": json.dumps(c.exp)[:400] if c.exp else None,
                                     "observed": json.dumps(c.got)[:400]})
        return cases

    def _chunk(self, cases, ids, quiet):
        pos = 0
        bad = 0
        while pos < len(ids):
            f = tempfile.NamedTemporaryFile("w", suffix=".jobs", delete=False, dir=self.scratch)
            for i in ids[pos:]:
                f.write(json.dumps(cases[i].json(i)) + "\n")
            f.close()

            def limit():
                resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            with open(f.name) as inp:
                p = subprocess.Popen([BIN], stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                     preexec_fn=limit, cwd=self.scratch)
            fd = p.stdout.fileno()
            buf = b""
            ended = None
            while ended is None:
                r, _, _ = select.select([fd], [], [], quiet)
                if not r:
                    ended = "hang"
                    break
                data = os.read(fd, 1 << 20)
                if not data:
                    ended = "end"
                    break
                buf += data
                lines = buf.split(b"\n")
                buf = lines.pop()
                for line in lines:
                    d = json.loads(line)
                    cases[d["id"]].got = d["out"] if "out" in d else ["panic"]
                    pos += 1
            if ended == "hang":
                p.kill()
            p.wait()
            os.unlink(f.name)
            if pos < len(ids):
                cases[ids[pos]].got = ["hang"] if ended == "hang" else ["abort"]
                pos += 1
                bad += 1
                if bad >= 5:            # enough to report; leave the rest untested
                    for i in ids[pos:]:
                        cases[i].got = ["lost"]
                    return

    # --------------------------------------------------------------- report
    def judge(self, cases, kind, f, replayed=False):
        """f(case) returns None or what is wrong"""
        if not replayed:
            self.replay(cases, kind)
        for c in cases:
            if c.got == ["lost"]:
                continue
            if len(self.violations) >= 5:
                return
            w = f(c)
            if w:
                self.violation(c, w)

    def violation(self, c, what, **more):
        if len(self.violations) >= 5:
            return
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "text": c.src, "rep": c.rep, "requests": c.req, "ast": c.ast,
                       "expected": c.exp, "observed": c.got, "seed": self.seed, "tier": self.tier, **more}, f, indent=1)
        self.violations.append((p, what, c.src))


# ------------------------------------------------------------------- outcomes
def died(c):
    return c.got in (["panic"], ["abort"], ["hang"])


def out(c, k):
    """the crate's outcome k; a panic counts as an error without a position"""
    if died(c):
        return ["err", [], c.got[0]]
    return c.got[k]


def ok(o):
    return o[0] == "ok"


POS = {"dir", "query", "mutation", "subscription", "fragment", "vardef", "sel", "field", "inline", "spread", "schema",
       "scalar", "scalar+", "type", "type+", "interface", "interface+", "union", "union+", "enum", "enum+", "input",
       "input+", "enumval", "sfield", "inval", "directive"}


def strip(x):
    """the tree without its positions (GqlAst!Strip)"""
    if isinstance(x, list) and x:
        h = x[0]
        if isinstance(h, int):
            return x
        y = [strip(e) for e in x]
        if isinstance(h, str) and h in POS:
            y[1] = 0
            if h == "sel":
                y[2] = 0
        return y
    return x


def numbers_alike(x):
    """integral floats and the integer of the same value are told apart by nothing that is printed"""
    import struct
    if isinstance(x, list) and x:
        h = x[0]
        if isinstance(h, int):
            return x
        if h == "float" and len(x) == 2 and isinstance(x[1], str):
            v = struct.unpack(">d", bytes.fromhex(x[1]))[0]
            if v == int(v):
                return ["int", [ord(ch) for ch in str(int(v))]]
            return x
        return [numbers_alike(e) for e in x]
    return x


def literals(x, tags, acc):
    """values with these tags, in order"""
    if isinstance(x, list) and x:
        h = x[0]
        if isinstance(h, int):
            return acc
        if isinstance(h, str) and h in tags and len(x) == 2:
            acc.append(x)
            return acc
        for e in x:
            literals(e, tags, acc)
    return acc


DESCRIBED = {"scalar", "type", "interface", "union", "enum", "input", "enumval", "sfield", "inval", "directive"}


def strings(x, acc):
    """string values and descriptions, in order"""
    if isinstance(x, list) and x:
        h = x[0]
        if isinstance(h, int):
            return acc
        if h == "str" and len(x) == 2:
            acc.append(x[1])
            return acc
        if isinstance(h, str) and h in DESCRIBED:
            acc.append(["desc"] + x[2])
            for e in x[3:]:
                strings(e, acc)
            return acc
        for e in x:
            strings(e, acc)
    return acc


def show(x, n=200):
    return json.dumps(x)[:n]
