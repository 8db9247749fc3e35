"""One function per property: what is explored, and what counts as a violation.

Expected outcomes come from TLC running the specification in /verif/spec; the crate's outcomes come
from the conformance harness.  See DESIGN.md.
"""
import itertools, json, re, time
import gen, inputs, model, scale
from engine import (Case, died, literals, numbers_alike, ok, out, show, strings, strip)

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def batches(ck, quick_n, make, limit=None):
    """make(n) once in quick mode; in thorough mode again and again until the time is used"""
    ck.rounds = 0
    while True:
        make(quick_n)
        ck.rounds += 1
        if ck.quick or ck.elapsed() > (limit or ck.budget) or ck.violations:
            ck.notes["rounds"] = ck.rounds
            return


def doc_cases(ck, kind, n, req, **kw):
    return [Case(s, req(kind) if callable(req) else req) for s in inputs.documents(ck, kind, n, **kw)]


# ------------------------------------------------------------ languages: C01 C03
def okness(c):
    e, g = c.exp[0], out(c, 0)
    if ok(e) != ok(g):
        return ("accepted although it is not in the language (%s)" % show(e[1:]) if ok(g)
                else "rejected although it is in the language: %s" % ("".join(map(chr, g[2])) if g[2] and not isinstance(g[2], str) else g[2]))


QUERY_SLOTS = [("{a ", "}"), ("{", "}"), ("{a{b ...", "}}"), ("{a{b ...", " T}}"), ("{a ...", " T{b}}"), ("{a ...", "{b}}"),
               ("{a ... ", " @d{b}}"), ("", "{a}"), ("", " x{a}"), ("{a} ", " x{a}"), ("{a}", "{b}"), ("fragment ", " on T{a}"),
               ("fragment f ", " T{a}"), ("fragment f on ", "{a}"), ("query ", "{a}"), ("query q($", ":T){a}"),
               ("query q($a:", "){a}"), ("query q($a:[", "!]!){a}"), ("query q($a:T=", "){a}"), ("query q($a:T=[{k:", "}]){a}"),
               ("{a(", ":1)}"), ("{a(x:", ")}"), ("{a(x:$", ")}"), ("{a(x:[$y ", "])}"), ("{a(x:{", ":1})}"), ("{", ":a}"),
               ("{a:", "}"), ("{a@", "}"), ("{a@", "(x:1)}"), ("{...f@", "}"), ("query@", "{a}"), ("mutation m@d", "{a}"),
               ("subscription ", "@d{a}")]
SCHEMA_SLOTS = [("", " A"), ("", " A{b:C}"), ("", "{query:Q}"), ("schema{", ":Q}"), ("schema{query:", "}"),
                ("schema{query:Q ", ":R}"), ("schema @d{mutation:M ", ":R}"), ("extend ", " A@d"), ("extend type ", "@d"),
                ("extend type A ", " B"), ("type A ", " B"), ("type A ", " &B&C{d:E}"), ("type A implements ", "{b:C}"),
                ("type A implements B&", "{b:C}"), ("type A implements&", " {b:C}"), ("type A implements B ", "{b:C}"),
                ("type A{", ":B}"), ("type A{b:", "}"), ("type A{b(", ":C):D}"), ("type A{b(c:", "):D}"), ("type A{b(c:C=", "):D}"),
                ("type A{b(c:C=[", "]):D}"), ("union A=", ""), ("union A=|", "|B"), ("union A=B|", ""), ("union A=B ", " C"),
                ("enum A{", "}"), ("enum A{B ", " C}"), ("input A{", ":B}"), ("input A{b:B=", "}"), ("directive@", " on FIELD"),
                ("directive@d ", " FIELD"), ("directive@d ", " on FIELD"), ("directive@d repeatable ", " FIELD"),
                ("directive@d on ", ""), ("directive@d on|", "|QUERY"), ("directive@d on FIELD|", ""), ("directive@d on FIELD ", " A"),
                ("directive@d(", ":T)on FIELD"), ("scalar ", ""), ("scalar A@", ""), ('"d"', " A"), ('"d" ', " A@d"),
                ('"d" extend ', " A@d"), ('"d" "e" ', " A"), ("interface ", "{a:B}"), ("interface A ", " B"),
                ("extend schema ", "{query:Q}"), ("extend interface A ", " B")]


def words_in_slots(kind, slots):
    names = sorted(set(gen.KEYWORD_NAMES + gen.NEAR_KEYWORDS + gen.WELL_KNOWN + ["a", "_", "A1"] + gen.LOCATIONS))
    others = [l for l in inputs.LEXEMES if l not in names] + ["!!", "[a]", "[]", "{}", "()", "{a}", "(a:1)", "@d", "&&", "||", "a b",
                                                             "a:1", "$a", "[a b]", "a&b", "a|b", "=1", "...a", "...on T{a}", "on on"]
    return [{"letters": names + others, "pre": p, "post": q, "max": 1, "req": [["parse", kind]]} for p, q in slots]


# lists whose items can meet their like: (before, items, after)
QUERY_LISTS = [("", ["{a}", "query q{a}", "query q{b}", "mutation q{a}", "fragment f on T{a}", "fragment f on T{b}", "fragment f on U{a}", "query{a}"], ""),
               ("{", ["a ", "b ", "a:b ", "b:a ", "a(x:1)", "a{b}", "...f ", "...f@d ", "...{a}", "...on T{a}", "a@d "], "}"),
               ("{a(", ["x:1 ", "x:2 ", "y:1 ", "x:$x "], ")}"), ("{a", ["@d", "@e", "@d(x:1)", "@d(x:2)"], "}"),
               ("{a(x:{", ["k:1 ", "k:2 ", "j:1 ", "j:{k:1}", "J:[]"], "})}"), ("{a(x:[", ["1 ", "2 ", "[1]", "[]", "null ", "\"\"", "{k:1}"], "])}"),
               ("query q(", ["$v:T ", "$v:T!", "$w:T ", "$v:T=1 ", "$w:[T]=[] "], "){a}"),
               ("query q", ["@d", "@e", "@d(x:1)"], "{a}"), ("fragment f on T", ["@d", "@e", "@d(x:1)"], "{a}"), ("{...f", ["@d", "@e", "@d(x:1)"], "}"),
               ("{...on T", ["@d", "@e", "@d(x:1)"], "{a}}")]
SCHEMA_LISTS = [("", ["scalar A ", "scalar A@d ", "extend scalar A@d ", "type A ", "extend type A@d ", "schema{query:A}", "schema{query:B}", "\"d\"scalar A ", "directive@d on FIELD "], ""),
                ("schema{", ["query:A ", "query:B ", "mutation:A ", "mutation:B ", "subscription:A ", "subscription:B ", "x:A "], "}"),
                ("schema@d", ["@d", "@e", "@d(x:1)"], "{query:A}"),
                ("type A implements ", ["B", "C", "&", " ", "&B"], "{a:B}"), ("type A{", ["a:B ", "a:C ", "b:B ", "\"d\"a:B ", "a(x:B):B ", "a:B@d "], "}"),
                ("type A{a(", ["x:B ", "x:C ", "y:B ", "x:B=1 ", "\"d\"x:B ", "x:B@d "], "):B}"), ("type A{a:B", ["@d", "@e", "@d(x:1)"], "}"),
                ("extend type A implements ", ["B", "C", "&", " "], "@d"), ("interface A{", ["a:B ", "a:C ", "b:B "], "}"), ("extend interface A implements ", ["B", "C", "&", " "], ""),
                ("union A=", ["B", "C", "|", " ", "|B"], ""), ("extend union A=", ["B", "C", "|", " "], ""),
                ("enum A{", ["B ", "C ", "B@d ", "\"d\"B ", "\"e\"B "], "}"), ("extend enum A{", ["B ", "C ", "B@d "], "}"),
                ("input A{", ["a:B ", "a:C ", "b:B=1 ", "\"d\"a:B ", "a:B@d "], "}"), ("extend input A{", ["a:B ", "a:C ", "b:B=1 "], "}"),
                ("directive@d on ", ["FIELD", "QUERY", "|", " ", "|FIELD"], ""), ("directive@d(", ["x:B ", "x:C ", "y:B=1 "], ")on FIELD"),
                ("directive@d repeatable", [" repeatable", " on", " FIELD", "|"], "")]


def idioms(kind, n):
    """the constructs everybody writes, n of them together"""
    return [{"letters": sorted({" ".join(t) + " " for nt in nts.split() for t in gen.IDIOMS[nt]}), "pre": p, "post": q, "min": 1, "max": n, "req": [["parse", kind]]} for p, nts, q in gen.IDIOM_LISTS[kind]]


def repeated(kind, n):
    lists = QUERY_LISTS if kind == "QDoc" else SCHEMA_LISTS
    res = [{"letters": items, "pre": p, "post": q, "max": n, "req": [["parse", kind]]} for p, items, q in lists]
    # longer ones of fewer items
    res += [{"letters": items[:2], "pre": p, "post": q, "min": n + 1, "max": n + 3, "req": [["parse", kind]]} for p, items, q in lists]
    res += idioms(kind, 2)
    if kind == "SDoc":
        res.append({"letters": ["query:A ", "mutation:A ", "subscription:A ", "x:A "], "pre": "schema{", "post": "}", "min": 2, "max": n + 2, "req": [["parse", kind]]})
    return res


# every document of few tokens: (beginning, terminals, most further tokens in a quick run, in a thorough one)
SENTENCES = {
    "QDoc": [("", "{ } N : ( ) ... I @", 9, 11), ("", "query mutation subscription { } N", 6, 7),
             ("query N (", "$ N : [ ] ! = I ) @ { }", 14, 16), ("query N ( $ N :", "N [ ] ! = I { } : )", 13, 15),
             ("fragment N on N", "{ } ... on N @ :", 8, 9), ("{ N", "@ N ( ) : I { } ... on", 7, 8),
             ("{ N ( N :", "[ ] { } : N I S $ )", 9, 11)],
    "SDoc": [("type N", "implements & N { } ( ) : ! [ ] @ = I", 11, 13), ("type N { N", "( ) N : ! [ ] @ = I S }", 12, 14),
             ("extend interface N", "implements & N { } : @", 10, 12), ("", "union scalar extend schema N = | { } : S @ query", 5, 6),
             ("", "S type scalar union enum input N @", 5, 6), ("directive @ N", "( ) N : ! [ ] = I on repeatable L | S", 9, 10),
             ("input N", "{ } N : ! [ ] = I S @", 12, 14), ("enum N", "{ } S N @ ( ) : I", 10, 12), ("union N", "= | N @ ( ) : I", 12, 14),
             ("schema", "@ ( ) N : I { } query mutation subscription", 8, 10)]}


def sentences(ck, kind, style=None):
    return ck.sentences(kind, [(p, l, a if ck.quick else b) for p, l, a, b in SENTENCES[kind]], style)


def language(ck, kind, slots):
    req = [["parse", kind]]
    ck.judge(ck.tour(kind, 1, 6), "tour", okness)
    if not ck.quick:
        ck.judge(ck.tour(kind, 2, 7), "tour, deeper", okness)
    if kind == "SDoc" or not ck.quick:
        ck.judge(ck.tour(kind, 1, 4 if ck.quick else 6, fine=True), "tour, telling apart optional parts", okness)
    ck.judge(ck.words(words_in_slots(kind, slots), invariants=False), "every word in every slot", okness)
    ck.judge(ck.words(repeated(kind, 3 if ck.quick else 4), invariants=False), "every list of few items", okness)
    ck.judge(sentences(ck, kind), "every document of few tokens", okness)
    ck.judge(ck.expect([Case(t, req) for t in inputs.coincidences(ck.rng, kind, 400 if ck.quick else None)]), "the same name in two places", okness)

    def go(n):
        cs = doc_cases(ck, kind, n, req, wild=0.5, bad=0.05, p_tok=0.5)
        cs += doc_cases(ck, kind, n // 8, req, sizes=(80, 160), wild=0.3, maxrep=12, p_tok=0.5)
        ck.judge(ck.expect(cs, ["HistoryInStep", "BudgetCountsOpenBrackets"]), "random documents", okness)
    batches(ck, 1500, go)
    large(ck, kind, okness)


def large(ck, kind, f, n=8, bad=False, req=None, stretch=True, giant=True, only=None):
    """texts of any length; f judges parse (or, with req, the requests chosen among parse, print, minify)"""
    if giant:
        cs = scale.giants(ck, kind, n if ck.quick else 10 * n, style(ck), bad=bad)
        for c in cs:
            c.tag = None
            c.req, c.exp = choose(c, req or ["parse"])
        ck.judge(cs, "giant documents", f)
    if stretch:
        cs = scale.stretched(ck, kind, only)
        for c in cs:
            c.tag = None
            c.req, c.exp = choose(c, req or ["parse"])
        ck.judge(cs, "lexemes and lists of any length", f)


def choose(c, names):
    ks = [k for k, q in enumerate(c.req) if q[0] in names]
    return [c.req[k] for k in ks], [c.exp[k] for k in ks]


@prop("C01")
def c01(ck):
    language(ck, "QDoc", QUERY_SLOTS)


@prop("C03")
def c03(ck):
    language(ck, "SDoc", SCHEMA_SLOTS)


# -------------------------------------------------------------- trees: C02 C04
def same_tree(c):
    e, g = c.exp[0], out(c, 0)
    if ok(e) and ok(g) and strip(e[1]) != strip(g[1]):
        return "the tree differs: expected %s, got %s" % difference(strip(e[1]), strip(g[1]))


def difference(a, b):
    """the smallest differing parts"""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a and not isinstance(a[0], int):
        d = [(x, y) for x, y in zip(a, b) if x != y]
        if len(d) == 1:
            return difference(*d[0])
    return show(a), show(b)


WIDE = (5, 9, 17, 18, 33, 65)
WIDER = (20, 50, 100, 129, 257)


def trees(ck, kind, slots):
    req = [["parse", kind]]
    ck.judge(ck.tour(kind, 1, 6), "tour", same_tree)
    if not ck.quick:
        ck.judge(ck.tour(kind, 2, 7), "tour, deeper", same_tree)
        ck.judge(ck.tour(kind, 1, 6, fine=True), "tour, telling apart optional parts", same_tree)
    ck.judge(ck.words(words_in_slots(kind, slots), invariants=False), "every word in every slot", same_tree)
    ck.judge(ck.words(repeated(kind, 3 if ck.quick else 4), invariants=False), "every list of few items", same_tree)
    ck.judge(sentences(ck, kind), "every document of few tokens", same_tree)
    ck.judge(ck.expect([Case(t, req) for t in inputs.coincidences(ck.rng, kind, None)]), "the same name in two places", same_tree)
    cs = [Case(t, req) for k, t in inputs.wide_objects(ck.rng, WIDE if ck.quick else WIDE + WIDER) if k == kind]
    ck.judge(ck.expect(cs, ["HistoryInStep"]), "wide objects", same_tree)

    def go(n):
        cs = doc_cases(ck, kind, n, req, wild=0.5)
        cs += doc_cases(ck, kind, n // 6, req, sizes=(80, 160), wild=0.4, maxrep=12)
        cs += doc_cases(ck, kind, n // 6, req, p_tok=1.0)
        ck.judge(ck.expect(cs, ["HistoryInStep"]), "random documents", same_tree)
    batches(ck, 1500, go)
    large(ck, kind, same_tree)


@prop("C02")
def c02(ck):
    trees(ck, "QDoc", QUERY_SLOTS)


@prop("C04")
def c04(ck):
    trees(ck, "SDoc", SCHEMA_SLOTS)


# ------------------------------------------------------------------ layout: C05
def alike(a, b):
    """same outcome up to positions"""
    if ok(a) != ok(b):
        return False
    return not ok(a) or strip(a[1]) == strip(b[1])


FILL_HOLES = [("QDoc", "{a", "b}"), ("QDoc", "{a:", "b}"), ("QDoc", "", "{a}"), ("QDoc", "{a}", ""), ("QDoc", "{a(x:1", "y:-2)}"),
              ("QDoc", "{a(x:1.5", ")}"), ("QDoc", '{a(x:"s"', 'y:"""b"""', ')}'), ("QDoc", "{a(x:[1", "2])}"),
              ("QDoc", "{...", "f}"), ("QDoc", "{...on", "T{a}}"), ("QDoc", "query($", "a:T=1){a}"), ("QDoc", "{a}", "{b}"),
              ("QDoc", '{a(x:["""b"""', "1 3])}"),
              ("SDoc", '"d"', "type A{b:C}"), ("SDoc", "type A", "implements B"), ("SDoc", "union A=", "|B|C"),
              ("SDoc", "directive@", "d on FIELD"), ("SDoc", "extend", "scalar A@d"), ("SDoc", 'type A{"d"', "b:C}")]


def fill_confs(n, letters=inputs.FILLERS + ["a", '"', "\u00e9"]):
    confs = []
    for k, *h in FILL_HOLES:
        pre, post = h[0], "".join(h[1:])
        for end in ("\n", " ", ""):
            confs.append({"letters": letters, "pre": pre, "post": end + post, "max": n, "min": 0, "req": [["parse", k]],
                          "tag": (k, pre, post)})
    return confs


@prop("C05")
def c05(ck):
    # every filler in every hole, against a single space there
    cases = ck.words(fill_confs(2 if ck.quick else 4), invariants=not ck.quick)
    base = {}
    for c in cases:
        k, pre, post = c.tag
        if c.src == pre + " " + post:
            base[c.tag] = c
    ck.replay(cases, "every filler in every hole")

    def filler(c):
        b = base[c.tag]
        if died(b) or not alike(b.exp[0], b.got[0]):
            return None         # this context is broken whatever the layout
        if not alike(c.exp[0], out(c, 0)):
            return "with other ignored text: expected %s, got %s (with a space: %s)" % (show(strip(c.exp[0])), show(strip(out(c, 0))), show(strip(b.got[0])))
    ck.judge(cases, "", filler, replayed=True)

    def go(n):
        groups = []
        flat = []
        for kind in inputs.KINDS:
            for t in inputs.token_lists(ck, kind, n, wild=0.5, bad=0.03, p_tok=0.3):
                modes = ["space", "tight", "wild", "wild", "comma", "line"]
                seen = {}
                for m in modes:
                    s = gen.layout(t, ck.rng, m)
                    seen.setdefault(s, Case(s, [["parse", kind]]))
                groups.append(list(seen.values()))
                flat += groups[-1]
        ck.expect(flat, ["AtToken"])
        ck.replay(flat, "random documents in several layouts")
        for g in groups:
            for c in g[1:]:
                if not alike(c.exp[0], g[0].exp[0]):
                    continue    # mutated tokens can read differently when moved together
                if not alike(out(c, 0), out(g[0], 0)):
                    ck.violation(c, "the same tokens in the layout %s give %s, here %s"
                                 % (json.dumps(g[0].src), show(strip(out(g[0], 0))), show(strip(out(c, 0)))))
    batches(ck, 200, go)

    # every odd character in a comment, which hides whatever follows it on the line
    odd = inputs.chars_interesting()
    cs = [Case("%s#%s%s\n%s" % (p, chr(o), h, q), [["parse", k]]) for o in odd if o not in (10, 13)
          for k, p, q, h in [ck.rng.choice([("QDoc", "{a", "b}", ";"), ("SDoc", "type A{b:", "C}", "\""), ("QDoc", "{a", "}", ""), ("QDoc", "{a(b:1", ")}", "x]")])]]

    def hidden(c):
        if not alike(c.exp[0], out(c, 0)):
            return "expected %s, got %s" % (show(strip(c.exp[0])), show(strip(out(c, 0))))
    ck.judge(ck.expect(cs), "characters in comments", hidden)

    def unread(c):
        if not alike(c.exp[0], out(c, 0)):
            return "expected %s, got %s" % (show(strip(c.exp[0])), show(strip(out(c, 0))))
    for kind in inputs.KINDS:
        large(ck, kind, unread, giant=False, only=lambda t: t[1][0] in "# \t\n\r,\ufeff")


# ------------------------------------------------------------------ tokens: C06
ENTRIES = [["minify"], ["parse", "QDoc"], ["parse", "SDoc"]]


def split_of(text):
    return text


PIECE = re.compile(r'"""(?:[^"\\]|\\"""|\\|"(?!""))*"""|"(?:[^"\\]|\\.)*"| +|[^" ]+|"', re.S)


def apart(text):
    """the text without the spaces that do not separate tokens (whether they are there is C18's)"""
    ps = PIECE.findall(text)
    word = lambda x: x.isalnum() or x in "_-"
    return [p for i, p in enumerate(ps)
            if p.strip(" ") or 0 < i < len(ps) - 1 and word(ps[i - 1][-1]) and word(ps[i + 1][0])]


@prop("C06")
def c06(ck):
    n = 0 if ck.quick else 1
    mini = [["minify"]]

    def lexical(c):
        """minified text shows where the crate thinks tokens end"""
        e, g = c.exp[0], out(c, 0)
        if ok(e) != ok(g):
            return "%s by the minifier; by the lexical grammar it is %s" % ("accepted" if ok(g) else "rejected", show(e))
        if ok(e) and e[1] != g[1] and apart(model.text(e[1])) != apart(model.text(g[1])):
            return "other tokens: expected %s, got %s" % (json.dumps(model.text(e[1])), json.dumps(model.text(g[1])))

    confs = [
        {"letters": inputs.SOUP, "pre": "", "post": "", "max": 3, "req": mini},
        {"letters": list("0129-+.eEa"), "pre": "", "post": "", "max": 4 + n, "req": mini},
        {"letters": ['"', '"""', "\\", "a", "\n", "\r", "u", " ", "#"], "pre": '"', "post": "", "max": 4 + n, "req": mini},
        {"letters": ['"', "\\", "a", "\n", "\u00e9"], "pre": '"""', "post": "", "max": 5 + n, "req": mini},
        {"letters": ["#", "a", "\n", "\r", '"', "{", "1"], "pre": "", "post": "", "max": 4 + n, "req": mini},
        {"letters": inputs.LEXEMES + ["", " "], "pre": "", "post": "", "max": 2 + n, "req": mini},
        {"letters": [".", "a", " ", "1", "{"], "pre": "", "post": "", "max": 5 + n, "req": mini},
    ]
    ck.judge(ck.words(confs), "all short texts", lexical)
    # characters one by one, at the start of a token, inside one, and in strings and comments
    cs = [chr(x) for x in inputs.chars_interesting()]
    one = [{"letters": cs, "pre": p, "post": q, "min": 1, "max": 1, "req": mini}
           for p, q in [("", ""), ("a", "b"), ("1", ""), ("{ ", " }"), ('"', '"'), ("# ", "\na"), ('"""', '"""'), ("...", ""), ('"\\', '"'), ("-", "")]]
    ck.judge(ck.words(one, invariants=False), "every character in every place", lexical)

    # the same through the parsers
    def parsed(c):
        for k, r in enumerate(c.req):
            e, g = c.exp[k], out(c, k)
            b = ctl.get((c.tag, k))
            if b is not None and (died(b) or not alike(b.exp[k], b.got[k])):
                continue
            if not alike(e, g):
                return "%s: expected %s, got %s" % (r, show(strip(e)), show(strip(g)))
    holes = [("QDoc", "{a(x:[", "])}"), ("QDoc", "{a ", "}"), ("SDoc", "type A@d(x:[", "]){b:C}"), ("SDoc", "union A=B ", ""), ("SDoc", "", " scalar A")]
    confs = []
    for k, p, q in holes:
        confs.append({"letters": inputs.SOUP, "pre": p, "post": q, "max": 2 + n, "req": [["parse", k]], "tag": p})
        confs.append({"letters": cs, "pre": p, "post": q, "min": 1, "max": 1, "req": [["parse", k]], "tag": p})
    cases = ck.words(confs, invariants=False)
    ctl = {}
    for k, p, q in holes:
        for c in cases:
            if c.tag == p and c.src == p + " " + q:
                ctl[(p, 0)] = c
    ck.judge(cases, "all short texts inside documents", parsed)

    def go(m):
        cases = []
        for kind in inputs.KINDS:
            for s in inputs.documents(ck, kind, m, wild=0.8, bad=0.1, p_char=0.7):
                cases.append(Case(s, [["minify"]]))
        r = ck.rng
        for _ in range(m):
            cases.append(Case("".join(r.choice(gen.CHARS + inputs.LEXEMES + [chr(r.randrange(32, 127))]) for _ in range(r.randrange(1, 14))), [["minify"]]))
        ck.judge(ck.expect(cases, ["AtToken", "MinifyKeepsTokens"]), "random texts", lexical)
    batches(ck, 400, go)
    for kind in inputs.KINDS:
        large(ck, kind, lexical, giant=False, req=["minify"])


# ---------------------------------------------------- literal values: C07 C08 C09
def in_holes(ck, holes, plain, letters, n, what, collect, invariants=True, lo=0, pre="", post=""):
    """every word as a literal in every hole; plain literals tell whether the hole itself works"""
    confs = []
    for k, p, q in holes:
        confs.append({"letters": letters, "pre": p + pre, "post": post + q, "min": lo, "max": n, "req": [["parse", k]], "tag": (k, p, q)})
        confs.append({"letters": [plain], "pre": p, "post": q, "min": 1, "max": 1, "req": [["parse", k]], "tag": (k, p, q)})
    cases = ck.words(confs, invariants=invariants)
    ctl = {c.tag: c for c in cases if c.src == c.tag[1] + plain + c.tag[2]}

    def f(c):
        b = ctl[c.tag]
        if not ok(b.exp[0]):
            raise model.ModelError("control rejected: " + b.src)
        if died(b) or not alike(b.exp[0], b.got[0]):
            return None
        return literal_outcome(c, collect)
    ck.replay(cases, what)
    ck.judge(cases, what, f, replayed=True)


def literal_outcome(c, collect):
    e, g = c.exp[0], out(c, 0)
    if ok(e) != ok(g):
        return "the literal is %s, expected: %s" % ("accepted" if ok(g) else "rejected", show(strip(e)))
    if ok(e):
        a, b = collect(e[1], []), collect(g[1], [])
        if a != b:
            return "expected values %s, got %s" % difference(a, b)


def numbers(x, acc):
    return literals(x, ("int", "float"), acc)


def random_literals(ck, n, make, plain, collect, kinds=inputs.KINDS, **kw):
    """random documents; if one is wrongly accepted or rejected, the same with plain literals decides whether the literals are to blame"""
    cases = []
    for kind in kinds:
        for t in inputs.token_lists(ck, kind, n, **kw):
            t = make(t)
            mode = ck.rng.choice(gen.MODES)
            s = gen.layout(t, ck.rng, mode)
            cases.append(Case(s, [["parse", kind]], tag=t))
    ck.expect(cases)
    ck.replay(cases, "random documents")
    suspects = [c for c in cases if c.got != ["lost"] and literal_outcome(c, collect)]
    if suspects:
        ctl = [Case(gen.layout([plain(x) for x in c.tag], ck.rng, "space"), c.req) for c in suspects[:50]]
        ck.expect(ctl)
        ck.replay(ctl, "controls")
        for c, b in zip(suspects, ctl):
            if ok(b.exp[0]) and not died(b) and alike(b.exp[0], b.got[0]):
                c.tag = None
                ck.violation(c, literal_outcome(c, collect))


def is_number(t):
    return t[0] in "0123456789-"


@prop("C07")
def c07(ck):
    h = inputs.VALUE_HOLES
    deep = 0 if ck.quick else 1
    in_holes(ck, h[:1], "1", list("0189-+.eE"), 5 + deep, "all short numbers", numbers, invariants=False)
    in_holes(ck, h[:5:2] + h[5:9], "1", list("01-.e"), 3 + deep, "all short numbers, elsewhere", numbers, invariants=False)
    in_holes(ck, h[2:3], "1", list("01-.ea_") + ['"', " ", ",", "#\n", "\ufeff", "}", "!", "..."], 3, "what may follow a number", numbers, invariants=False)
    # magnitudes: integers around powers of ten and two, floats around the largest, the smallest and ties
    ints = set()
    for b in [10 ** k for k in range(0, 25)] + [2 ** k for k in (7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128)]:
        for d in (-2, -1, 0, 1, 2):
            ints.add(str(b + d))
            ints.add(str(-b + d))
    for k in (19, 20, 30, 60):
        ints.add("9" * k)
        ints.add("-" + "1" * k)
    floats = set(gen.FLOATS + gen.BAD_FLOATS)
    for i in sorted(ints):
        for sfx in (".0", ".5", "e0"[:1] + "+0", "e1", ".25e-3"):
            floats.add(i + sfx)
    for m in ("1", "1.7976931348623157", "1.7976931348623158", "1.797693134862315807", "1.797693134862315808", "1.7976931348623159", "0.17976931348623158",
              "17.976931348623157", "4.9", "2.4703282292062327", "2.4703282292062328", "2.2250738585072011", "2.2250738585072014", "9.999999999999999999",
              "9007199254740993", "9007199254740992.5", "123456789012345678901234567890"):
        for e in ("307", "308", "309", "310", "-308", "-322", "-323", "-324", "-325", "-400", "400", "15", "16", "22", "23", "99999999999999999999", "-99999999999999999999"):
            for s in ("", "-"):
                for sep in ("e", "E"):
                    floats.add(s + m + sep + e)
                    if e[0] != "-":
                        floats.add(s + m + sep + "+" + e)
    big = model.text([]) or ("17976931348623158079371897140530341507993413271003782693617377898044496829276475094664901797758720709633028641669288791094"
           "65555478519404026306574886715058206819089020007083836762738548458177115317644757302700698555713669596228429148198608349364"
           "75292719074168444365510704342711559699508093042880177904174497792")
    floats |= {big + ".0", big[:-1] + "1.0", big[:-1] + "1.999999", big[:-1] + "3.0", "-" + big + "e0"[:0] + ".5", big + "e+0", big[:5] + "." + big[5:] + "e304", big[:-1] + "1e+0"}
    half = "9007199254740993"     # ties between two binary64 numbers
    floats |= {half + ".0", half + ".00000000000000000000000000001", "9007199254740992.99999999999999999999", half + "e+0"}
    r = ck.rng
    for _ in range(400 if ck.quick else 4000):
        a = str(r.randrange(0, 10 ** r.randrange(1, 25)))
        f = "".join(r.choice("0123456789") for _ in range(r.randrange(1, 25)))
        floats.add(("-" if r.random() < .5 else "") + a + "." + f + (("e" + str(r.randrange(-340, 320))) if r.random() < .6 else ""))
    in_holes(ck, h + inputs.DEEP_HOLES, "1", sorted(set(gen.INTS + gen.FLOATS + gen.BAD_FLOATS + gen.BAD_INTS)), 1, "boundaries in every place", numbers, invariants=False, lo=1)
    for k, hole in enumerate(h if not ck.quick else h[:1] + h[4:6]):
        in_holes(ck, [hole], "1", sorted(ints) + sorted(floats), 1, "magnitudes", numbers, invariants=False, lo=1)

    # short mantissas with every exponent, and mantissas and exponents of every length, many to a list
    def many(texts, what):
        cases = [Case("{a(x:[" + " ".join(texts[k:k + 50]) + "])}", [["parse", "QDoc"]]) for k in range(0, len(texts), 50)]
        ck.judge(ck.expect(cases + [Case("{a(x:[1 1])}", [["parse", "QDoc"]])], ["HistoryInStep"]), what, lambda c: literal_outcome(c, numbers))
    texts = []
    for e in range(-345, 309):
        for _ in range(2 if ck.quick else 12):
            m = r.choice(["%d" % r.randrange(1, 100), "%d" % r.randrange(1, 10 ** 6), "%d.%d" % (r.randrange(10), r.randrange(10)), "%d.%d" % (r.randrange(1000), r.randrange(10 ** 6)), str(2 ** r.randrange(60) + r.randrange(3))])
            if e + len(m.split(".")[0]) <= 308:
                texts.append(r.choice(["", "-"]) + m + r.choice("eE") + ("+" if e >= 0 and (e == 0 or r.random() < .3) else "") + str(e))
    for e in range(-30, 31):
        for m in range(1, 60 if ck.quick else 600):
            texts.append("%de%s%d" % (m, "+" if e == 0 else "", e))
    many(texts, "mantissas and exponents")

    def go(n):
        random_literals(ck, n, lambda t: t, lambda x: "1" if is_number(x) else x, numbers, wild=0.2, bad=0.05)
    batches(ck, 400, go)


@prop("C08")
def c08(ck):
    h, d = inputs.VALUE_HOLES, inputs.TEXT_HOLES
    deep = 0 if ck.quick else 1
    E = ["\\", '\\"', "\\u", "a", "0", "n", "D8", "\u00e9", "\n"]
    in_holes(ck, h[:1], '"s"', E, 4 + deep, "all short strings", strings, pre='"', post='"', invariants=not ck.quick)
    in_holes(ck, h[2:10:2] + d, '"s"', ["\\", '\\"', "\\u00e9", "a", "\\n", "\t"], 2 + deep, "all short strings, elsewhere", strings, pre='"', post='"', invariants=False)
    U = ['\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u00e9", "\\uFFFF", "\\u0022", "\\u005C", "\\u000a", "\\uFEFF", "a", "\u00e9", "\U0001f600", " ", "#"]
    in_holes(ck, h[:1], '"s"', U, 3 + deep, "all short sequences of escapes and characters", strings, pre='"', post='"', invariants=False)
    bodies = ["", " ", "a", "\\\\", '\\"', "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u00e9", "\\uFFFF", "\\\\n", "a\\n b \\n", " \\t ", "\u00e9\U0001f600", "\t", "\\x", "\\u12", "\\ud800", "\\U0041", "\\ud83d\\ude00", "#", ",", "\ufeff", "\r",
              '\\"\\"\\"', "\\\\\\\\\\\"", "{", "$v", "a" * 200 + "\\n"]
    in_holes(ck, h + inputs.DEEP_HOLES + d + inputs.DEEP_TEXT_HOLES, '"s"', bodies, 1, "all kinds of strings in every place", strings, pre='"', post='"', lo=1, invariants=False)
    # \u with all kinds of digits
    in_holes(ck, h[:1], '"s"', list("0dD8fFgG+-\" {"), 4, "what may follow \\u", strings, pre='"x\\u', post='"', lo=3 if ck.quick else 0, invariants=False)
    cs = [chr(x) for x in inputs.chars_interesting()]
    in_holes(ck, h[:1] + d[1:2], '"s"', cs, 1, "every character after a backslash", strings, pre='"a\\', post='b"', lo=1, invariants=False)
    in_holes(ck, h[:1] + d[1:2], '"s"', cs, 1, "every character", strings, pre='"', post='"', lo=1, invariants=False)
    # every \uXXXX, in both cases of digits
    cases = []
    good = [x for x in range(0x10000) if not 0xd800 <= x <= 0xdfff]
    for k in range(0, len(good), 64):
        cases.append(Case('{a(x:"' + "".join(("\\u%04x" if (k // 64) % 2 else "\\u%04X") % x for x in good[k:k + 64]) + '")}', [["parse", "QDoc"]]))
    for x in good[:128] + inputs.chars_interesting():
        if x < 0x10000:
            cases.append(Case('{a(x:"%s")}' % (ck.rng.choice(["\\u%04x", "\\u%04X"]) % x), [["parse", "QDoc"]]))
    for x in list(range(0xd800, 0xe000, 97)) + [0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000]:
        cases.append(Case('{a(x:"\\u%04X")}' % x, [["parse", "QDoc"]]))
        cases.append(Case('{a(x:"\\ud83d\\u%04x")}' % x, [["parse", "QDoc"]]))
    cases.append(Case('{a(x:["s"])}', [["parse", "QDoc"]]))
    ck.expect(cases)
    ck.replay(cases, "\\u escapes")
    if alike(cases[-1].exp[0], out(cases[-1], 0)):
        ck.judge(cases, "\\u escapes", lambda c: literal_outcome(c, strings), replayed=True)

    def go(n):
        def plain(x):
            return '"s"' if x[0] == '"' else x

        def make(t):
            g = ck.gen()
            g.wild, g.bad = 1.0, 0.02
            return [g.quoted() if x[0] == '"' else x for x in t]
        random_literals(ck, n, make, plain, strings)
    batches(ck, 400, go)
    for kind in inputs.KINDS:
        large(ck, kind, lambda c: literal_outcome(c, strings), giant=False, only=lambda t: t[0].endswith('"') and not t[0].endswith('"""'))


@prop("C09")
def c09(ck):
    h, d = inputs.VALUE_HOLES, inputs.TEXT_HOLES
    deep = 0 if ck.quick else 1
    B = [" ", "\t", "\n", "\r\n", "a", '\\"""', "\\", '"']
    in_holes(ck, h[:1], '"""s"""', B[:6], 5 + deep, "all short block strings", strings, pre='"""', post='"""', invariants=False)
    in_holes(ck, h[:1], '"""s"""', B, 4 + deep, "all short block strings", strings, pre='"""', post='"""', invariants=not ck.quick)
    in_holes(ck, h[:1], '"""s"""', [" ", "\n", "a", "\t"], 6 + deep, "all short block strings", strings, pre='"""', post='"""', invariants=False)
    in_holes(ck, d + h[3:4], '"""s"""', ["\n", " ", "a", '\\"""'], 3 + deep, "all short block strings, elsewhere", strings, pre='"""', post='"""', invariants=False)
    in_holes(ck, h[:1], '"""s"""', ["\r", "\n", "a", " "], 4 + deep, "carriage returns", strings, pre='"""', post='"""', invariants=False)
    bodies = ["", " ", "\n", "a", "  a", "a  ", "\n  a\n    b\n  ", "a\n  b\n\n   \n  c", "\t\ta\n\t\tb", "\r\n a\r\n  b\r\n", '\\"""', 'a\n \\""" \n  b', "\\", "\\n", "\\u0041", "a\n\n", "\n\na", " a\n b", "\u00a0a\n\u00a0b", "\n \u00e9\n  \u2028\n", "a\rb", "a\n      \n  b", '""a', "a ", "#a\n,b", "\ufeffa"]
    in_holes(ck, h + inputs.DEEP_HOLES + d + inputs.DEEP_TEXT_HOLES, '"""s"""', bodies, 1, "all kinds of block strings in every place", strings, pre='"""', post='"""', lo=1, invariants=False)
    cs = [chr(x) for x in inputs.chars_interesting() if x not in (34,)]
    for p, q in [("\n ", "\n"), ("\n ", "a\n  b\n"), ("", ""), ("a\n  b\n", "  c"), ("\\", "n"), ("a\n\n", "\n\nb")]:
        in_holes(ck, h[:1], '"""s"""', cs, 1, "every character", strings, pre='"""' + p, post=q + '"""', lo=1, invariants=False)

    def go(n):
        def plain(x):
            return '"""s"""' if x[0] == '"' else x

        def make(t):
            g = ck.gen()
            g.wild = 1.0
            return [g.block() if x[0] == '"' else x for x in t]
        random_literals(ck, n, make, plain, strings)
        # longer block strings, alone
        g = ck.gen()
        g.wild = 1.0
        cases = [Case("{a(x:" + g.block() + ")}", [["parse", "QDoc"]]) for _ in range(n * 3)]
        ck.expect(cases)
        ck.judge(cases, "random block strings", lambda c: literal_outcome(c, strings))
    batches(ck, 250, go)
    for kind in inputs.KINDS:
        large(ck, kind, lambda c: literal_outcome(c, strings), giant=False, only=lambda t: '"""' in t[0])
    # indentations of every size
    r = ck.rng
    some = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300]
    cases = []
    for _ in range(120 if ck.quick else 2500):
        ind = r.choice([" ", "\t", " \t"])
        a = r.choice(some)
        ls = [r.choice(["", "x", "  x"])]
        for _ in range(r.randrange(1, 4)):
            b = r.choice([a, a, a + 1, r.choice(some)])
            ls.append((ind * b)[:b] + r.choice(["y", "y", "y z", '\\"""', "", "\u00a0"]))
        cases.append(Case('{a(x:"""' + r.choice(["\n", "\r\n"]).join(ls) + '""")}', [["parse", "QDoc"]]))
    ck.judge(ck.expect(cases, ["HistoryInStep"]), "indentations of every size", lambda c: literal_outcome(c, strings))


# --------------------------------------------------------------- positions: C10
def same_places(c):
    e, g = c.exp[0], out(c, 0)
    if ok(e) and ok(g) and strip(e[1]) == strip(g[1]) and e[1] != g[1]:
        return "positions differ: expected %s, got %s" % difference(e[1], g[1])


@prop("C10")
def c10(ck):
    fills = [" ", "\t", "\n", "\r\n", "\r", ",", "\ufeff", "#c\n", "#\t\u00e9\r\n", "#\r"]
    confs = []
    for k, *hs in FILL_HOLES:
        pre, post = hs[0], "".join(hs[1:])
        confs.append({"letters": fills, "pre": pre, "post": " " + post + (" {z}" if k == "QDoc" else " scalar Z"), "min": 0,
                      "max": 2 if ck.quick else 3, "req": [["parse", k]]})
    ck.judge(ck.words(confs, invariants=False), "every filler before every construct", same_places)
    # literals of every kind on the way
    S = ['"', '"\u00e9\U0001f600"', '""', '"\\n\\u00e9"', '"\t"', '""""""', '"""\n\n"""', '"""a\r\n  b"""', '"""\\"""\n\u00e9\t"""', '"""\t"""', "1", "-1.5e3"]
    confs = [{"letters": S[1:] + [" ", "\n"], "pre": p, "post": q, "max": 2 if ck.quick else 3, "req": [["parse", k]]}
             for k, p, q in [("QDoc", "{a(x:[", "])b@d{c}}{d}"), ("SDoc", "scalar A@d(x:[", "])type B{c(d:E):F}"), ("QDoc", "query($v:[T]=[", "]$w:T)@d{c}")]]
    confs += [{"letters": S[1:10], "pre": p, "post": q, "max": 1, "req": [["parse", k]]}
              for k, p, q in [("SDoc", "", "type A{b:C}"), ("SDoc", "type A{", "b:C}"), ("SDoc", "type A{b(", "c:D):E f:G}"), ("SDoc", "enum A{", "B C}"),
                              ("SDoc", "input A{", "b:C d:E}"), ("SDoc", "", "directive@d on FIELD"), ("SDoc", "", "union A=B"), ("SDoc", "", "interface A")]]
    ck.judge(ck.words(confs, invariants=False), "every literal before every construct", same_places)
    for kind in inputs.KINDS:
        if not ck.quick:
            ck.judge(ck.tour(kind, 2, 6), "tour", same_places)

    def go(n):
        cs = []
        for kind in inputs.KINDS:
            cs += doc_cases(ck, kind, n, [["parse", kind]], modes=["wild", "wild", "pretty", "tight", "line"], wild=0.6)
        ck.judge(ck.expect(cs, ["PositionsAreCounted", "AtToken"]), "random documents", same_places)
    batches(ck, 500, go)
    for kind in inputs.KINDS:
        large(ck, kind, same_places, n=5)


# ----------------------------------------------------------------- nesting: C11
@prop("C11")
def c11(ck):
    r = ck.rng

    def go(n):
        cases = []
        for kind in inputs.KINDS:
            req = [["parse", kind], ["minify"]] + ([["consume"]] if kind == "QDoc" else [])
            for depth in [2, 5, 20, 40, 45, 47, 48, 49, 50, 51, 52, 53, 55, 60, 80]:
                for _ in range(n):
                    core = inputs.nest(r, kind, depth)
                    if core is None:
                        continue
                    shallow = inputs.nest(r, kind, 3) or ""
                    k = r.random()
                    if k < 0.4:
                        s = core
                    elif k < 0.6:       # the level of earlier brackets has been given back
                        s = inputs.siblings(r, kind, r.randrange(1, 30)) + " " + core
                    elif k < 0.8:
                        s = (core + " ") * 2 + inputs.siblings(r, kind, r.randrange(1, 9)) + " " + core
                    else:
                        s = shallow + " " + core + " " + shallow
                    if r.random() < 0.5:
                        s = inputs.hide(r, s)
                    cases.append(Case(s, req, tag="deep" if depth > 50 else "fits"))
            for _ in range(2 * n):
                cases.append(Case(inputs.siblings(r, kind, r.choice([51, 60, 100, 120])), req, tag="fits"))
        # brackets alone, for the minifier: any mix, balanced or not
        for depth in (1, 49, 50, 51, 52, 70):
            for _ in range(3 * n):
                o = [r.choice("([{") for _ in range(depth)]
                c = [{"(": ")", "[": "]", "{": "}"}[x] for x in reversed(o)]
                s = "".join(o) + r.choice(["", "a", '"["', "# (\n"]) + "".join(c)
                cases.append(Case(s * r.choice([1, 1, 3]), [["minify"]]))
                cases.append(Case("".join(o) + ")" * r.randrange(0, 5) + "[" * r.randrange(0, 6), [["minify"]]))
        # brackets inside strings and comments do not nest
        for q in ['"' + "{" * 60 + '"', '"""' + "([{" * 30 + '"""', '"' + "}" * 60 + '"']:
            cases.append(Case("{a(x:" + q + ")# {{{{{{{{\n}" + inputs.nest(r, "QDoc", 50), [["parse", "QDoc"], ["minify"], ["consume"]], tag="fits"))
            cases.append(Case(q + "type A " + (inputs.nest(r, "SDoc", 50) or ""), [["parse", "SDoc"], ["minify"]], tag="fits"))
        ck.expect(cases, ["BudgetCountsOpenBrackets"])
        for c in cases:
            if c.tag:
                want = c.tag == "fits"
                if ok(c.exp[0]) != want:
                    raise model.ModelError("nesting generator: %s %r" % (c.tag, c.src[:300]))
                c.tag = None

        def f(c):
            for k, rq in enumerate(c.req):
                e, g = c.exp[k], out(c, k)
                if ok(e) != ok(g):
                    return "%s %s; expected %s" % (rq, "accepts" if ok(g) else "rejects " + show(g, 300), show(e))
        ck.judge(cases, "nesting", f)
    batches(ck, 3, go)

    # any number of siblings gives every level back: a unit repeated, and then as deep as it goes
    many = []
    for kind, p, u, q in [("QDoc", "{a(x:[", "[]", "%s])}"), ("QDoc", "{a(x:[", "{k:[]}", "%s])}"), ("QDoc", "{", "a{b}", "%s}"), ("QDoc", "{", "a(x:1)", "%s}"), ("QDoc", "", "{a}", "%s"),
                          ("QDoc", "query(", "$v:[T]", "){%s}"), ("QDoc", "{", "...{b}", "%s}"), ("SDoc", "", "enum A{B}", "%s"), ("SDoc", "type A{", "b(c:[D]):E", "f:%s}"), ("SDoc", "input A{b:C=[", "[]", "%s]}")]:
        for d in (50, 51):
            d -= p.count("{") + p.count("[") + p.count("(") * ("$" not in p)
            if kind == "QDoc":
                core = "[" * d + "]" * d if "[" in p else "{a" * d + "}" * d if not p else "z" + "{a" * d + "}" * d
                core = core if "$" not in p else "z" + "{a" * (d - 1) + "}" * (d - 1)
            else:
                core = "[" * d + "]" * d if "=[" in p else "[" * d + "G" + "]" * d if p else "input A{b:C=" + "[" * (d - 1) + "]" * (d - 1) + "}"
            three = [Case(p + u * k + q % core, [["parse", kind], ["minify"]]) for k in (0, 3, 4)]
            many.append((p, u, q % core, kind, three))
    ck.expect([c for m in many for c in m[4]], ["BudgetCountsOpenBrackets"])
    cases = []
    for p, u, q, kind, three in many:
        if ok(three[1].exp[0]) != ok(three[2].exp[0]) or ok(three[1].exp[1]) != ok(three[2].exp[1]):
            raise model.ModelError("siblings: %r" % three[1].src)
        n = (120000 if ck.quick else 700000) + r.randrange(5000)
        for rq in (0, 1):
            c = Case(p + u * n + q, [three[2].req[rq]])
            c.exp = [["ok", []] if ok(three[2].exp[rq]) else three[2].exp[rq]]
            cases.append(c)
    if len({ok(c.exp[0]) for c in cases}) < 2:
        raise model.ModelError("siblings: all alike")

    def level(c):
        if died(c) or ok(c.got[0]) != ok(c.exp[0]):
            return "%s; expected %s" % (c.got[0] if died(c) else "accepted" if ok(c.got[0]) else "rejected " + show(c.got[0], 300), "acceptance" if ok(c.exp[0]) else show(c.exp[0]))
    ck.judge(cases, "any number of siblings", level)

    # far beyond the limit: an error, not an exhausted stack
    cases = []
    for n in (100, 1000, 20000, 200000):
        for kind, s in [("QDoc", "{a" * n), ("QDoc", "{a(x:" + "[" * n), ("QDoc", "{a(x:" + "{k:" * n), ("QDoc", "query($v:" + "[" * n), ("QDoc", "{" * n),
                        ("QDoc", "{...{" + "...on T{" * n), ("SDoc", "type A{f:" + "[" * n), ("SDoc", "input A{f:T=" + "[" * n), ("SDoc", "input A{f:T=" + "{k:" * n),
                        ("SDoc", "scalar A@d(x:" + "[{k:" * n), ("SDoc", "(" * n)]:
            req = [["parse", kind], ["minify"]] + ([["consume"]] if kind == "QDoc" else [])
            cases.append(Case(s, req, [["err"]] * len(req)))

    def g(c):
        if died(c):
            return "%s on brackets nested far too deep" % c.got[0]
        for k, rq in enumerate(c.req):
            if ok(out(c, k)):
                return "%s accepts brackets nested far too deep" % rq
    ck.judge(cases, "far too deep", g)


# ---------------------------------------------------------------- no panic: C12
ALL_QUERY = [["parse", "QDoc"], ["print", 2, False], ["reread"], ["reprint"], ["nodes"], ["minify"], ["reminify"], ["readmin", "QDoc"], ["consume"]]
ALL_SCHEMA = [["parse", "SDoc"], ["print", 4, True], ["reread"], ["reprint"], ["nodes"], ["minify"], ["reminify"], ["readmin", "SDoc"], ["consume"]]


def survives(c):
    if died(c):
        return "%s" % c.got[0]
    for o in c.got:
        if o[0] == "stuck":
            return "consume_definition makes no progress or returns something that is not the rest"


def everything(ck, kind):
    base = ALL_QUERY if kind == "QDoc" else ALL_SCHEMA
    i, m = style(ck)
    return [[q[0], i, m] if q[0] == "print" else q for q in base]


def style(ck):
    return inputs.style(ck)


@prop("C12")
def c12(ck):
    r = ck.rng
    # the specification decides every text: no state of the machine is stuck
    cs = []
    for kind in inputs.KINDS:
        cs += [Case(s, everything(ck, kind)) for s in inputs.documents(ck, kind, 60 if ck.quick else 400, wild=0.7, bad=0.1, p_tok=0.4, p_char=0.4)]
    ck.expect(cs, ["Decided", "AtToken"])
    ck.judge(cs, "texts the model decides", survives)
    cases = []
    n = 0 if ck.quick else 1
    confs = [{"letters": inputs.SOUP, "pre": "", "post": "", "max": 2 + n, "req": [["minify"]]},
             {"letters": ['"', '"""', "\\", "\n", "\u00e9", "\\u", "0"], "pre": '"', "post": "", "max": 4 + n, "req": [["minify"]]},
             {"letters": ["\u00a0", " ", "\n", "\u00e9", "\t", "\u2003", "a", "\u3000"], "pre": '{a(x:"""', "post": '""")}', "max": 4 + n, "req": [["minify"]]},
             {"letters": inputs.LEXEMES, "pre": "", "post": "", "max": 2 + n, "req": [["minify"]]}]
    # characters of several bytes inside every kind of lexeme
    odd = ["\u00e9", "\u0663", "\U0001f600"]
    for pre, letters in [("", ["1", "0", "-", "+", ".", "e", " "]), ("a", ["_", "1", ".", "#"]), ("#", ["\r", "\n", "#", "a"]), (".", [".", "1", "a"]), ('{a(x:"\\u', ["0", "D", "+", '"', "\\"]),
                         ('{a(x:"\\', ["u", "n", '"', "\\", "0"]), ('{a(x:"""', ["\n", " ", "\\", '"', '"""']), ("directive@a on ", ["FIELD", "|", "field", " "]), ("@", ["a", "@", "("])]:
        confs.append({"letters": letters + odd, "pre": pre, "post": "", "max": 3 + n, "req": [["minify"]]})
        if pre.startswith("{"):
            confs.append({"letters": letters + odd, "pre": pre, "post": ('"""' if '"""' in pre else '"') + ")}", "max": 3, "req": [["minify"]]})
    for c in ck.words(confs, invariants=False):
        for kind in inputs.KINDS:
            cases.append(Case(c.src, everything(ck, kind)))
    ck.judge(cases, "all short texts, every entry point", survives)

    def go(m):
        cases = []
        for kind in inputs.KINDS:
            docs = inputs.documents(ck, kind, m, sizes=(3, 10, 30, 80), wild=0.7, bad=0.1, p_tok=0.3, p_char=0.6)
            for s in docs:
                for k2 in (kind, kind, "QDoc" if kind == "SDoc" else "SDoc")[r.randrange(3):][:1]:
                    cases.append(Case(s, everything(ck, k2), rep=r.choice(["str", "string", "cow", "static"])))
            for depth in (10, 25, 35, 45, 48, 50, 51):
                docs += [x for x in (inputs.nest(r, kind, depth) for _ in range(m // 40)) if x]
            r.shuffle(docs)
            for s in docs[:m // 3]:     # cut off in the middle of anything
                k = r.randrange(len(s) + 1)
                cases.append(Case(s[:k], everything(ck, kind)))
                cases.append(Case(s[k:], everything(ck, kind)))
        alpha = gen.CHARS + inputs.LEXEMES + gen.UNI + gen.KEYWORD_NAMES
        for _ in range(m * 2):
            s = "".join(r.choice(alpha) for _ in range(r.randrange(0, 40)))
            cases.append(Case(s, everything(ck, r.choice(inputs.KINDS))))
        for _ in range(m):
            s = "".join(chr(r.choice([r.randrange(0, 128), r.randrange(0, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randrange(0, 30)))
            w = r.choice(["%s", '"%s"', '"""%s"""', "# %s\n{a}", '{a(x:"%s")}', '{a(x:"""\n%s\n""")}', '"""%s""" scalar A'])
            cases.append(Case(w.replace("%s", s), everything(ck, r.choice(inputs.KINDS))))
        ck.judge(cases, "random texts, every entry point", survives)
    batches(ck, 1500, go)

    cs = []
    for p, q in (("", ""), ("{a(x:", ")}"), ("{a ", "}"), ("enum A{", " :"), ("", " scalar A")):
        cs += [Case(p + x + q, everything(ck, inputs.KINDS[k % 2])) for k, x in enumerate(long_lexemes(ck.quick))]
    ck.judge(cs, "tokens and malformed text of every length", survives)

    # wide indentation
    wide = []
    for kind in inputs.KINDS:
        for s in inputs.documents(ck, kind, 12, sizes=(15, 30), wild=0.5) + [inputs.nest(r, kind, 9) or "" for _ in range(4)] + ["{a(x:1){b}}" if kind == "QDoc" else "type A{b(c:D):E}"]:
            for w in (31, 64, 127, 128, 200, 255, 256, 300, 1000) + ((33000, 66000) if len(s) < 20 else ()):
                wide.append(Case(s, [[q[0], w, r.random() < 0.5] if q[0] == "print" else q for q in everything(ck, kind)[:4]]))
    ck.judge(wide, "wide indentation", survives)

    # large inputs: long rather than deep
    big = []
    for N in ((3000, 60000) if ck.quick else (3000, 60000, 400000)):
        for s in ["{" + "a " * N + "}", "{a(x:[" + "1 " * N + "])}", "{a" + "@d" * N + "}", "{a}" * N, "{" + "...f " * N + "}", "{a(" + "x:1 " * N + ")}",
                  '{a(x:"' + "y" * N + '")}', '{a(x:"' + "\\n" * N + '")}', '{a(x:"""' + "\n y" * N + '""")}', "{a(x:" + "1" * N + ")}", "{a(x:1." + "0" * N + ")}",
                  "{a(x:1e" + "9" * N + ")}", "{a(x:1e-" + "9" * N + ")}", " " * N + "{a}", "," * N, "#" * N, "#\n" * N + "{a}", "\ufeff" * N + "{a}", "a" * N, '"' * N, "." * N, "-" * N,
                  "{a(x:{" + "".join("k%d:1 " % i for i in range(min(N, 20000))) + "})}", "query(" + "$v:T=1 " * N + "){a}", "query($v:T" + "!" * N + "){a}", "}" * N, ")" * N, "]{" * N]:
            big.append(Case(s, [q for q in ALL_QUERY if q[0] != "nodes" and (q[0] != "consume" or not s.startswith("{a}{"))]))
        for s in ["type A{" + "b:C " * N + "}", "type A implements B" + "&B" * N, "union A=B" + "|C" * N, "enum A{" + "B " * N + "}", "scalar A " * N, "directive@d on FIELD" + "|QUERY" * N,
                  "schema{" + "query:A " * N + "}", "type A{b(" + "c:D " * N + "):E}", '"""' + " x\n" * N + '"""scalar A', "extend type A" + "@d" * N, "type A{b:C" + "!" * N + "}"]:
            big.append(Case(s, [q for q in ALL_SCHEMA if q[0] != "nodes"]))
    ck.judge(big, "large texts", survives)


# -------------------------------------------------------- print and read: C13 C14
def round_trip(c):
    """requests: parse, print, reread"""
    a = out(c, 0)
    if died(c):
        return "%s" % c.got[0] if ok(c.exp[0]) else None
    if not ok(a):
        return None
    b = out(c, 2)
    if not ok(b):
        return "printed as %s, which is not accepted: %s" % (json.dumps(model.text(c.got[1][1])), model.text(b[2])[:300])
    x, y = numbers_alike(strip(a[1])), numbers_alike(strip(b[1]))
    if x != y:
        return "printed as %s, which reads back differently: %s became %s" % ((json.dumps(model.text(c.got[1][1])),) + difference(x, y))


def print_req(ck, kind):
    return [["parse", kind], ["print"] + style(ck), ["reread"]]


def string_confs(kind, holes, n):
    """literals of all kinds of content, in many places"""
    confs = []
    for k, p, q in holes:
        if k == kind:
            r = [["parse", k]]
            confs.append({"letters": ["a", '\\"', "\\\\", "\\n", " ", "\\r", "\\t", "\\u0001", "\u00e9"], "pre": p + '"', "post": '"' + q, "max": n, "req": r})
            confs.append({"letters": ["a", "\n", " ", '\\"""', "\\", "\t", '"'], "pre": p + '"""', "post": '"""' + q, "max": n, "req": r})
    return confs


def printing(ck, kind):
    def with_print(cases):
        for c in cases:
            c.req = print_req(ck, kind)
        return cases
    accepted = [c for c in ck.tour(kind, 1, 6) if ok(c.exp[0])]
    if not ck.quick:
        accepted += [c for c in ck.tour(kind, 2, 7) if ok(c.exp[0])]
    ck.judge(with_print(accepted), "tour", round_trip)
    if kind == "SDoc" or not ck.quick:
        ck.judge(with_print([c for c in ck.tour(kind, 1, 4 if ck.quick else 6, fine=True) if ok(c.exp[0])]), "tour, telling apart optional parts", round_trip)
    ck.judge(with_print([c for c in ck.words(repeated(kind, 3 if ck.quick else 4), invariants=False) if ok(c.exp[0])]), "every list of few items", round_trip)
    ck.judge(with_print([c for c in sentences(ck, kind) if ok(c.exp[0])]), "every document of few tokens", round_trip)
    ck.judge(ck.expect([Case(t, print_req(ck, kind)) for t in inputs.coincidences(ck.rng, kind, None)]), "the same name in two places", round_trip)
    holes = [h for h in inputs.VALUE_HOLES + inputs.TEXT_HOLES if h[0] == kind]
    some = holes if not ck.quick else ck.rng.sample(holes, 4)
    ck.judge(with_print([c for c in ck.words(string_confs(kind, some, 3 if ck.quick else 4), invariants=False) if ok(c.exp[0])]), "string contents", round_trip)
    nums = [{"letters": sorted(set(gen.INTS + gen.FLOATS)), "pre": p, "post": q, "min": 1, "max": 1, "req": [["parse", k]]} for k, p, q in inputs.VALUE_HOLES if k == kind]
    ck.judge(with_print(ck.words(nums, invariants=False)), "numbers", round_trip)
    deep = []
    for d in (10, 30, 49, 50):
        for _ in range(6):
            s = inputs.nest(ck.rng, kind, d)
            if s:
                deep.append(Case(s, print_req(ck, kind)))
    deep += [Case(t, print_req(ck, k)) for k, t in inputs.wide_objects(ck.rng, WIDE if ck.quick else WIDE + WIDER) if k == kind]
    ck.judge(ck.expect(deep, ["RoundTrip"]), "deep nesting and wide objects", round_trip)

    def go(n):
        cs = doc_cases(ck, kind, n, lambda k: print_req(ck, k), wild=0.5)
        cs += doc_cases(ck, kind, n // 3, lambda k: print_req(ck, k), wild=1.0)
        cs += doc_cases(ck, kind, n // 10, lambda k: print_req(ck, k), sizes=(80, 160), wild=0.4, maxrep=12)
        cs += doc_cases(ck, kind, n // 5, lambda k: print_req(ck, k), p_tok=1.0, wild=0.4)
        ck.judge(ck.expect(cs, ["RoundTrip"]), "random documents", round_trip)
    batches(ck, 700, go)
    cs = scale.giants(ck, kind, 6 if ck.quick else 60, style(ck)) + scale.stretched(ck, kind)
    for c in cs:
        c.tag = None
        c.req, c.exp = print_req(ck, kind), choose(c, ["parse"])[1]
    ck.judge(cs, "long texts", round_trip)


@prop("C13")
def c13(ck):
    printing(ck, "QDoc")


@prop("C14")
def c14(ck):
    printing(ck, "SDoc")


# --------------------------------------------------------------- canonical text: C15
def text_matches(want, got):
    """want: the specification's text with float literals between -1 and -2; got: code points"""
    i = j = 0
    while i < len(want):
        if want[i] == -1:
            e = want.index(-2, i)
            lit = model.text(want[i + 1:e])
            k = j
            while k < len(got) and chr(got[k]) in "0123456789+-.eE":
                k += 1
            try:
                if k == j or model.float_bits(got[j:k]) != model.float_bits([ord(x) for x in lit]):
                    return False
                printed = model.text(got[j:k])
                if printed.lstrip("-").isdigit() and int(printed) != float(lit):   # an exact comparison
                    return False
            except ValueError:
                return False
            i, j = e + 1, k
        else:
            if j >= len(got) or want[i] != got[j]:
                return False
            i, j = i + 1, j + 1
    return j == len(got)


def first_difference(want, got):
    w = model.text(want)
    g = model.text(got)
    k = next((i for i in range(min(len(w), len(g))) if w[i] != g[i]), min(len(w), len(g)))
    return "expected %s, got %s" % (json.dumps(w[max(0, k - 60):k + 60]), json.dumps(g[max(0, k - 60):k + 60]))


def canonical(c):
    if died(c) or not ok(c.exp[0]) or not ok(c.got[0]) or strip(c.exp[0][1]) != strip(c.got[0][1]):
        return None
    for k, rq in enumerate(c.req):
        if k >= len(c.got):
            break
        e, g = c.exp[k] if k < len(c.exp) else None, c.got[k]
        if rq[0] == "print" and not text_matches(e[1], g[1]):
            return "style %s: %s" % (rq[1:], first_difference(e[1], g[1]))
        if rq[0] == "reprint" and g[0] == "text" and c.req[k - 2][0] == "print" and g != c.got[k - 2]:
            return "printing what was printed changes it: " + first_difference(c.got[k - 2][1], g[1])
        if rq[0] == "nodes" and g[0] == "nodes":
            en, gn = e[1], g[2]
            if len(en) != len(gn):
                return "%d printable nodes, expected %d" % (len(gn), len(en))
            for x, y in zip(en, gn):
                if not text_matches(x[1], y[1]):
                    return "%s on its own: %s" % (y[0], first_difference(x[1], y[1]))


@prop("C15")
def c15(ck):
    def go(n):
        groups = []
        for kind in inputs.KINDS:
            for t in inputs.token_lists(ck, kind, n, wild=0.5):
                st = style(ck)
                req = [["parse", kind], ["print"] + st, ["reread"], ["reprint"]] + ([["nodes"]] if ck.rng.random() < 0.3 else [])
                groups.append([Case(gen.layout(t, ck.rng, "wild"), req), Case(gen.layout(t, ck.rng, ck.rng.choice(["tight", "pretty"])), req)])
            for t in inputs.token_lists(ck, kind, n // 10, sizes=(80, 160), wild=0.5, maxrep=12):
                groups.append([Case(gen.layout(t, ck.rng, "wild"), [["parse", kind], ["print"] + style(ck), ["reread"], ["reprint"]])])
        first = ck.expect([g[0] for g in groups], ["PrintIsStable", "RoundTrip"])
        ck.judge(first, "random documents", canonical)
        second = [g[1] for g in groups if len(g) > 1]
        ck.replay(second, "the same in another layout")
        for g in groups:
            if len(g) < 2 or died(g[0]) or died(g[1]) or not ok(g[0].got[0]) or not ok(g[1].got[0]):
                continue
            if strip(g[0].got[0][1]) == strip(g[1].got[0][1]) and g[0].got[1] != g[1].got[1]:
                ck.violation(g[1], "prints differently from the layout %s: %s" % (json.dumps(g[0].src), first_difference(g[0].got[1][1], g[1].got[1][1])))
    # one of everything in every style
    cases = []
    for kind in inputs.KINDS:
        g = ck.gen()
        docs = [c.src for c in ck.tour(kind, 1, 5) if ok(c.exp[0])]
        docs = ck.rng.sample(docs, min(len(docs), 700 if ck.quick else 4000))
        for k in range(0, len(docs), 5):
            # a directive definition without locations would take the next definition's keyword for one
            part = [d for d in docs[k:k + 5] if not d.rstrip().endswith("on")]
            cases.append(Case("\n".join(part), [["parse", kind], ["print"] + list(inputs.STYLES[(k // 5) % len(inputs.STYLES)]), ["reread"], ["reprint"]]))
    ck.judge(ck.expect(cases, ["PrintIsStable"]), "tour, printed", canonical)
    for kind in inputs.KINDS:
        ck.judge(sentences(ck, kind, style(ck)), "every document of few tokens", canonical)
    for kind in inputs.KINDS:
        st = style(ck)
        cs = [c for c in ck.words(idioms(kind, 2), invariants=False) if ok(c.exp[0]) and ck.rng.random() < (0.4 if ck.quick else 1)]
        for c in cs:
            c.req = [["parse", kind], ["print"] + st, ["reread"], ["reprint"]]
        cs += [Case(t, [["parse", kind], ["print"] + st, ["reread"], ["reprint"]]) for t in inputs.coincidences(ck.rng, kind, 250 if ck.quick else None)]
        ck.judge(ck.expect(cs), "what everybody writes, and the same name in two places", canonical)
    deep = []
    for kind in inputs.KINDS:
        for d in (8, 20, 50):
            for st in inputs.STYLES[:10]:
                s = inputs.nest(ck.rng, kind, d)
                if s:
                    deep.append(Case(s, [["parse", kind], ["print"] + list(st), ["reread"], ["reprint"]]))
    for kind, s in (("QDoc", "{a(x:[1]){b}}"), ("QDoc", 'query($v:T="a\\nb"){...{c(x:"a\\nb")}}'), ("SDoc", '"a\\nb" type A{"c\\nd" b(c:D=[{k:1}]):E}'), ("SDoc", 'enum A{"a\\nb" C@d(x:{k:[]})}')):
        for w in (5, 6, 9, 10, 16, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300):
            for m in (False, True):
                deep.append(Case(s, [["parse", kind], ["print", w, m], ["reread"], ["reprint"]]))
    for k, t in inputs.wide_objects(ck.rng, WIDE if ck.quick else WIDE + WIDER):
        for st in ck.rng.sample(inputs.STYLES, 2):
            deep.append(Case(t, [["parse", k], ["print"] + list(st), ["reread"], ["reprint"]]))
    ck.judge(ck.expect(deep), "deep nesting, wide indentation and wide objects", canonical)
    batches(ck, 250, go)
    for kind in inputs.KINDS:
        large(ck, kind, canonical, n=4, req=["parse", "print"], stretch=False)
        for st in inputs.STYLES[:2] + inputs.STYLES[5:6] if ck.quick else inputs.STYLES:
            cs = scale.stretched(ck, kind, lambda t: t[:3] in scale.MIXED[kind], st)
            for c in cs:
                c.tag = None
                c.req, c.exp = choose(c, ["parse", "print"])
            ck.judge(cs, "long lists of different items, printed", canonical)


# --------------------------------------------------------------------- strings: C16
Q0 = [0, 0]


def named(n):
    return ["named", [ord(n)]]


def tree_with(ck, strs, shape):
    """a tree that has these strings as values or descriptions"""
    V = [["str", s] for s in strs]
    nm = [97]
    sel0 = ["sel", Q0, Q0, []]

    def field(args=(), dirs=(), sel=sel0):
        return ["field", Q0, [], nm, [[[120], a] for a in args], list(dirs), sel]
    D = [["dir", Q0, [100], [[[120], v] for v in V]]]
    if shape == "args":
        return "QDoc", [["anon", ["sel", Q0, Q0, [field(V)]]]]
    if shape == "list":
        return "QDoc", [["query", Q0, [], [], [], ["sel", Q0, Q0, [field([["list", V]])]]]]
    if shape == "object":
        o = sorted(([[97 + k // 26, 97 + k % 26], v] for k, v in enumerate(V)))
        return "QDoc", [["fragment", Q0, nm, [84], [], ["sel", Q0, Q0, [field([["obj", o]])]]]]
    if shape == "default":
        vs = [["vardef", Q0, [118], named("T"), [v]] for v in V]
        return "QDoc", [["mutation", Q0, [nm], vs, D, ["sel", Q0, Q0, [field()]]]]
    if shape == "deep":
        s = ["sel", Q0, Q0, [field(V, D)]]
        for k in range(ck.rng.randrange(1, 9)):
            s = ["sel", Q0, Q0, [field([["list", [["obj", [[[107], V[0]]]]]]], [], s) if k % 2 else ["inline", Q0, [[84]] if k % 3 else [], D, s]]]
        return "QDoc", [["subscription", Q0, [nm], [], [], s]]
    if shape == "sdirs":
        return "SDoc", [["scalar", Q0, [strs[0]], nm, D], ["enum+", Q0, nm, [], [["enumval", Q0, [s], [66], []] for s in strs]]]
    if shape == "types":
        fs = [["sfield", Q0, [s], nm, [["inval", Q0, [s], [98], named("T"), [["str", s]], D[:1] if k == 0 else []]], named("U"), []] for k, s in enumerate(strs)]
        return "SDoc", [["type", Q0, [strs[-1]], nm, [], [], fs], ["interface", Q0, [strs[0]], nm, [], D, []]]
    if shape == "inputs":
        fs = [["inval", Q0, [s], [98], named("T"), [["list", [["str", s]]]], []] for s in strs]
        return "SDoc", [["input", Q0, [strs[0]], nm, [], fs], ["directive", Q0, [strs[-1]], nm, fs, "true", [S2("FIELD")]], ["union", Q0, [strs[0]], nm, D, [[85]]]]
    vs = [["enumval", Q0, [s], [66], D if k == 0 else []] for k, s in enumerate(strs)]
    return "SDoc", [["enum", Q0, [strs[0]], nm, [], vs]]


def S2(s):
    return [ord(c) for c in s]


SHAPES = ["args", "list", "object", "default", "deep", "sdirs", "types", "inputs", "enum"]


@prop("C16")
def c16(ck):
    r = ck.rng
    bad = []

    def printed(cases):
        """build, print, reread: the text the crate prints must denote the tree"""
        ck.expect(cases, ["RoundTrip"])
        ck.replay(cases, "strings put in a tree by hand, printed")
        suspects = []
        for c in cases:
            if died(c):
                ck.violation(c, c.got[0])
                continue
            if c.got == ["lost"]:
                continue
            if strip(c.got[0][1]) != strip(model.norm(c.ast)):
                continue        # the constructors put something else there (C23)
            back = c.got[2]
            if not ok(back) or strip(back[1]) != strip(model.norm(c.ast)):
                ck.violation(c, "printed as %s; read back: %s" % (json.dumps(model.text(c.got[1][1])), show(strip(back)) if not ok(back) else difference(strip(model.norm(c.ast)), strip(back[1]))))
            elif c.got[1] != c.exp[1]:
                suspects.append(c)
        # other text than the canonical one: is it still these strings for the specification?
        for kind in inputs.KINDS:
            ss = [c for c in suspects if c.tag == kind][:200]
            for c, t in zip(ss, ck.read_texts([model.text(c.got[1][1]) for c in ss], kind)):
                if t is None or strip(t) != strip(model.norm(c.ast)):
                    ck.violation(c, "printed as %s, which does not denote the tree" % json.dumps(model.text(c.got[1][1])))

    def make(strs, shape=None):
        shape = shape or r.choice(SHAPES)
        kind, ast = tree_with(ck, strs, shape)
        return Case("", [["build", kind], ["print"] + style(ck), ["reread"]], rep="string", ast=ast, tag=kind)
    # all short strings over the characters printing treats specially
    A = [97, 34, 92, 10, 32, 9, 13, 1]
    n = 4 if ck.quick else 5
    words = [list(w) for k in range(0, n) for w in itertools.product(A, repeat=k)]
    if not ck.quick:
        words += [list(w) for w in itertools.product([97, 34, 92, 10, 32], repeat=5)]
    else:
        words += [list(w) for w in itertools.product([97, 34, 10, 32], repeat=4)]
    r.shuffle(words)
    per = 12
    cases = [make(words[k:k + per], SHAPES[(k // per) % len(SHAPES)]) for k in range(0, len(words), per)]
    ck.exhaustive.append("all strings of at most %d characters of %s, as values and descriptions: %d" % (n - 1, A, len(words)))
    # every character, plain and where a block string would be used
    cs = inputs.chars_interesting()
    if not ck.quick:
        cs = sorted(set(cs) | {x for x in range(0x10000) if not 0xd800 <= x <= 0xdfff} | set(range(0x10000, 0x110000, 251)))
    for f in (lambda x: [x], lambda x: [97, 10, x], lambda x: [x, 10, 97], lambda x: [97, 10, 32, x, 10, 98]):
        for k in range(0, len(cs), 48):
            cases.append(make([f(x) for x in cs[k:k + 48]], r.choice(["list", "args", "enum", "inputs"])))
    printed(cases)

    def go(n):
        g = ck.gen()
        cases = []
        for _ in range(n):
            strs = []
            for _ in range(r.randrange(1, 5)):
                strs.append([ord(ch) for ch in g.plain_text(r.randrange(0, 12))])
            cases.append(make(strs))
        printed(cases)
        # long ones: whatever they are printed as has to read back
        cases = []
        for _ in range(n // 15):
            u = [[ord(ch) for ch in g.plain_text(r.randrange(0, 6))] for _ in range(3)]
            strs = [u[0] + u[1] * (scale.some_counts(r, ck.quick)[1] // r.choice([1, 1, 4])) + u[2] for _ in range(r.randrange(1, 3))]
            cases.append(make(strs))
            cases[-1].exp = [["ok", model.norm(cases[-1].ast)]]

        def kept(c):
            if died(c):
                return c.got[0]
            back = c.got[2]
            if not ok(back) or strip(back[1]) != strip(model.norm(c.ast)):
                return "long strings read back otherwise: %s" % (show(back) if not ok(back) else show(difference(strip(model.norm(c.ast)), strip(back[1]))))
        ck.judge(cases, "long strings put in a tree by hand, printed", kept)
        # strings that come from parsing
        for kind in inputs.KINDS:
            cs = doc_cases(ck, kind, n // 4, lambda k: print_req(ck, k), wild=1.0)
            ck.expect(cs)

            def f(c):
                if died(c) or not ok(c.got[0]):
                    return None
                a = strings(c.got[0][1], [])
                b = strings(c.got[2][1], []) if ok(c.got[2]) else None
                if b is None and strings(c.exp[2][1], []) == []:
                    return None
                if a != b:
                    return "printed as %s; strings %s read back as %s" % (json.dumps(model.text(c.got[1][1])), show(a), show(b))
            ck.judge(cs, "parsed strings, printed", f)
    batches(ck, 600, go)


# --------------------------------------------------------------------- minify: C17 C18
MINI = [["minify"], ["reminify"]]


def minify_cases(ck):
    n = 0 if ck.quick else 1
    confs = [
        {"letters": inputs.LEXEMES + [" ", ",", "\n", "#c\n"], "pre": "", "post": "", "max": 2 + n, "req": [["minify"]]},
        {"letters": ["1", "a", '"s"', "...", "{", " ", "1.5"], "pre": "", "post": "", "max": 4 + n, "req": [["minify"]]},
        {"letters": inputs.SOUP, "pre": "{a ", "post": "", "max": 2 + n, "req": [["minify"]]},
        {"letters": ['"', '"""', "\\", "a", "\n", " ", "#", ","], "pre": '"', "post": '"', "max": 4 + n, "req": [["minify"]]},
        {"letters": ["\ufeff", "\r", "\t", "\n", ",", " ", "#", "a", '"'], "pre": "a", "post": "\nb", "max": 3 + n, "req": [["minify"]]},
    ]
    for kind in inputs.KINDS:
        confs += [dict(c, req=[["minify"]]) for c in idioms(kind, 2)]
    cs = ck.words(confs)
    for c in cs:
        c.req = MINI
    return cs


def mini_docs(ck, n):
    cs = []
    for kind in inputs.KINDS:
        cs += [Case(s, MINI + [["readmin", kind], ["parse", kind]]) for s in inputs.documents(ck, kind, n, wild=0.6, bad=0.05)]
        cs += [Case(s, MINI) for s in inputs.documents(ck, kind, n // 2, wild=0.8, bad=0.1, p_tok=0.5, p_char=0.6)]
    return cs


def long_mini(ck):
    cs = []
    for kind in inputs.KINDS:
        cs += scale.giants(ck, kind, 4 if ck.quick else 40, most=60000) + scale.stretched(ck, kind)
    for c in cs:
        e = choose(c, ["minify"])[1][0]
        c.tag, c.req, c.exp = None, MINI, [e, e]
    return cs


@prop("C17")
def c17(ck):
    def judge(cases, kind):
        ck.replay(cases, kind)
        other = []
        for c in cases:
            if c.got == ["lost"]:
                continue
            e, g = c.exp[0], out(c, 0)
            if ok(e) != ok(g):
                ck.violation(c, "minifying is %s, expected %s" % ("accepted" if ok(g) else "rejected: " + show(g), show(e)))
            elif ok(e) and e[1] != g[1]:
                other.append(c)
            if len(c.req) == 4 and not died(c) and ok(g) and ok(c.got[3]):
                if c.got[2][0] != "ok" or strip(c.got[2][1]) != strip(c.got[3][1]):
                    ck.violation(c, "the minified text %s reads differently: %s" % (json.dumps(model.text(g[1])), show(c.got[2])))
        other = other[:100]
        for c, t in zip(other, ck.min_texts([model.text(c.got[0][1]) for c in other])):
            if t is None or S2(t) != c.exp[0][1]:
                ck.violation(c, "other tokens after minifying: %s, expected those of %s" % (json.dumps(model.text(c.got[0][1])), json.dumps(model.text(c.exp[0][1]))))
    judge(minify_cases(ck), "all short texts")

    def go(n):
        cs = mini_docs(ck, n)
        judge(ck.expect(cs, ["MinifyKeepsTokens", "MinifyKeepsMeaning"]), "random documents")
    batches(ck, 500, go)
    judge(long_mini(ck), "long texts")


@prop("C18")
def c18(ck):
    def judge(cases, kind):
        ck.replay(cases, kind)
        other = []
        for c in cases:
            if died(c) or c.got == ["lost"] or not ok(c.got[0]):
                continue
            if c.got[1] != c.got[0]:
                ck.violation(c, "minifying again gives %s, first %s" % (show(c.got[1]), json.dumps(model.text(c.got[0][1]))))
            elif not ok(c.exp[0]) or c.got[0][1] != c.exp[0][1]:
                other.append(c)
        other = other[:100]
        for c, t in zip(other, ck.min_texts([model.text(c.got[0][1]) for c in other])):
            if t is not None and S2(t) != c.got[0][1]:
                ck.violation(c, "minified to %s; minimal is %s" % (json.dumps(model.text(c.got[0][1])), json.dumps(t)))
    judge(minify_cases(ck), "all short texts")

    def go(n):
        cs = mini_docs(ck, n)
        judge(ck.expect(cs, ["MinifyKeepsTokens", "MinifyIsStable"]), "random documents")
    batches(ck, 500, go)
    judge(long_mini(ck), "long texts")


# ------------------------------------------------------------ one definition: C19
@prop("C19")
def c19(ck):
    r = ck.rng

    def judge(cases):
        ck.expect(cases, ["ConsumeAgrees"])
        ck.replay(cases, "definitions taken off one by one")
        # each definition against parsing its own text alone, by the crate
        alone, where = [], []
        for i, c in enumerate(cases):
            at = 0
            for d, off in c.exp[0][1]:
                alone.append(Case(c.src[at:off], [["parse", "QDoc"]]))
                where.append(i)
                at = off
        ck.replay(alone, "definitions parsed alone")
        defs = {}
        for c, i in zip(alone, where):
            defs.setdefault(i, []).append(c)
        for i, c in enumerate(cases):
            if c.got == ["lost"]:
                continue
            mine = defs.get(i, [])
            if any(died(a) or not ok(a.got[0]) or len(a.got[0][1]) != 1 for a in mine):
                continue            # not the fault of taking definitions off
            e, g = c.exp[0], out(c, 0)
            if died(c) or g[0] == "stuck":
                ck.violation(c, "%s" % (c.got[0] if died(c) else "the remainder is not a proper suffix of the text"))
                continue
            want = [[a.got[0][1][0], off] for a, (d, off) in zip(mine, e[1])]
            if g[0] == "stop" and e[0] == "ok":
                ck.violation(c, "stops after %d definitions: %s" % (len(g[1]), model.text(g[2][2])[:200]))
            elif g[1] != want:
                ck.violation(c, "taking definitions off gives %s, expected %s" % difference(want, g[1]))
            elif g[0] != e[0]:
                ck.violation(c, "ends as %s, expected %s" % (g[0], e[0]))

    # one definition followed by every kind of remainder
    fill = ["", " ", "\n", "#c\n", ",", "\ufeff", "\t", "\r\n", "#"]
    rest = ["", "{b}", "query{b}", "a", "}", "1x", '"', '"""', "$", "%", "\u00e9", "...", "fragment f on T{a}", "type A", "{", "\x00", "01", '"s"', ")", "..", "subscription", "mutation m{c}", "{b", "]"]
    firsts = ["{a}", "query q($v:T=1)@d{a}", "mutation{a(x:[{k:\"}\"}])}", "subscription s{a{b}}", "fragment f on T{...g}", "{a(x:\"\"\"}\n\"\"\")}", "#c\n{a}", "\n\t query{a #}\n}"]
    cases = [Case(a + f1 + b + f2, [["consume"]]) for a in firsts for f1 in fill for b in rest for f2 in ("", "\n# end")]
    if ck.quick:
        cases = r.sample(cases, 1500)
    judge(cases)

    def go(n):
        cases = []
        for s in inputs.documents(ck, "QDoc", n, wild=0.5):
            cases.append(Case(s, [["consume"]]))
        ds = inputs.documents(ck, "QDoc", n, sizes=(3, 8), wild=0.5)
        for a in ds:
            k = r.random()
            b = r.choice(ds)
            if k < 0.3:
                b = gen.mutate_chars(b, r, 2)
            elif k < 0.5:
                b = "".join(r.choice(gen.CHARS + inputs.LEXEMES) for _ in range(r.randrange(0, 8)))
            elif k < 0.6:
                b = b[:r.randrange(len(b) + 1)]
            if "#" in a.split("\n")[-1]:
                a += "\n"
            cases.append(Case(a + r.choice(["", " ", "\n", ",", "#x\n", "\ufeff"]) + b, [["consume"]]))
        # many definitions, deep ones, wide ones
        cases.append(Case("{a}" * 60, [["consume"]]))
        cases.append(Case(inputs.nest(r, "QDoc", 50) + inputs.siblings(r, "QDoc", 20) + inputs.nest(r, "QDoc", 50), [["consume"]]))
        judge(cases)
    batches(ck, 350, go)

    # a long text: what is taken off one part is what is taken off it alone, the rest moved on
    parts = ck.expect([Case("{zz}" + x + "\n", [["consume"]]) for x in inputs.documents(ck, "QDoc", 30, wild=0.5, maxrep=2)])
    parts = [p for p in parts if p.exp[0][0] == "ok" and len(p.exp[0][1]) > 1]
    ck.replay(parts, "parts of long texts")
    parts = [p for p in parts if not died(p) and p.got[0] == p.exp[0]]
    cases = []
    for _ in range(8 if ck.quick else 60):
        text, n = [], 0
        want = r.choice([1500, 5000, 30000])
        while n < want:
            p = r.choice(parts) if parts and r.random() < 0.97 else None
            t = p.src[4:] if p else r.choice(["#" + "x" * r.choice([300, 5000]) + "\n", " " * 5000, "\n" * 300, ",\n" * 3000])
            text.append((p, t))
            n += len(t)
        if parts:
            src = "".join(t for _, t in text)
            cases.append(Case(src, [["consume"]], tag=text))
    ck.replay(cases, "definitions taken off long texts")
    for c in cases:
        text, c.tag = c.tag, None
        if c.got == ["lost"]:
            continue
        g = out(c, 0)
        if died(c) or g[0] != "ok":
            ck.violation(c, "a concatenation of documents: %s" % show(c.got if died(c) else g[-1]))
            continue
        ends, defs, at = [], [], 0
        for p, t in text:
            if p:           # a remainder begins at the next token
                offs = [at + off - 4 for _, off in p.exp[0][1]]
                if ends:
                    ends[-1] = offs[0]
                ends += offs[1:]
                defs += [strip(d) for d, _ in p.exp[0][1][1:]]
            at += len(t)
        if ends:
            ends[-1] = len(c.src)
        if [o for _, o in g[1]] != ends:
            ck.violation(c, "remainders begin at %s, expected %s" % difference([o for _, o in g[1]], ends))
        elif [strip(d) for d, _ in g[1]] != defs:
            ck.violation(c, "expected %s, got %s" % difference(defs, [strip(d) for d, _ in g[1]]))


# --------------------------------------------------------------- error places: C20
def same_fault(c):
    e, g = c.exp[0], out(c, 0)
    if e[0] == "err" and g[0] == "err" and not died(c) and list(e[1]) != list(g[1]):
        return "the error is reported at %s, expected %s: %s" % (g[1], e[1], model.text(g[2])[:300])


@prop("C20")
def c20(ck):
    for kind in inputs.KINDS:
        ck.judge([c for c in ck.tour(kind, 1, 6 if ck.quick else 7) if not ok(c.exp[0])], "tour", same_fault)
        ck.judge(ck.words(words_in_slots(kind, QUERY_SLOTS if kind == "QDoc" else SCHEMA_SLOTS), invariants=False), "every word in every slot", same_fault)
        if not ck.quick:
            ck.judge(ck.tour(kind, 1, 6, fine=True), "tour, telling apart optional parts", same_fault)
    confs = []
    for k, p, q in inputs.VALUE_HOLES + inputs.TEXT_HOLES:
        bad = gen.BAD_INTS[:2] + gen.BAD_FLOATS[:2] + ["01", "1x", "-", "1.", "1e", '"', '"\n"', '"\\x"', '"\\uD800"', '"""', '"""\n\n', "..", "%", "?", "\u00e9", "$", "$v", ")", "{", "[", "}", "",
                                                       "\x00", "\\", "0.", ".5", "+1"]
        confs.append({"letters": bad + ["\n" + b for b in bad] + ["#c\n\t" + b for b in bad], "pre": p, "post": q, "min": 1, "max": 1, "req": [["parse", k]]})
    ck.judge(ck.words(confs, invariants=False), "every malformed literal in every hole", same_fault)
    # words that come close to numbers and strings, on the first and a later line
    m = 4 if ck.quick else 5
    ck.judge(ck.words([{"letters": list("10e.-+"), "pre": p, "post": q, "min": 1, "max": m, "req": [["parse", k]]}
                       for k, p, q in [("QDoc", "{a(x:", ")}"), ("SDoc", "input A{\n\tf:T= ", " }"), ("QDoc", "{a(x:[\n", " $y)}")]] +
                      [{"letters": ["1", "x", "\u00e9", '"', "\\", "u", "\n", " ", "#", "..."], "pre": p, "post": q, "min": 1, "max": m - 1, "req": [["parse", k]]}
                       for k, p, q in [("QDoc", "{a(x:", ")}"), ("SDoc", "", " scalar A"), ("QDoc", "{a(x:[\n", " $y)}")]], invariants=False), "words", same_fault)

    def go(n):
        cs = []
        for kind in inputs.KINDS:
            cs += doc_cases(ck, kind, n, [["parse", kind]], modes=["wild", "wild", "pretty", "space", "line"], wild=0.4, bad=0.05, p_tok=0.7, p_char=0.3)
            # cut off
            for s in inputs.documents(ck, kind, n // 4, wild=0.4):
                cs.append(Case(s[:ck.rng.randrange(len(s) + 1)], [["parse", kind]]))
        ck.judge(ck.expect(cs, ["PositionsAreCounted"]), "random documents", same_fault)
    batches(ck, 600, go)
    for kind in inputs.KINDS:
        large(ck, kind, same_fault, n=10, bad=True, stretch=False)


# ------------------------------------------------------------- error texts: C25
KIND = {"P": "Punctuator", "N": "Name", "I": "IntValue", "F": "FloatValue", "S": "StringValue", "B": "BlockString"}


def named_fault(c):
    e, g = c.exp[0], out(c, 0)
    if e[0] != "err" or g[0] != "err" or died(c):
        return None
    m = model.text(g[2])
    kind = c.req[0][1]
    head = "%s parse error: Parse error at %d:%d\n" % ({"QDoc": "query", "SDoc": "schema"}[kind], g[1][0] if g[1] else 0, g[1][1] if g[1] else 0)
    if not m.startswith(head):
        return "the message %s does not begin %s" % (json.dumps(m[:300]), json.dumps(head))
    if e[2] == "token" and len(e) > 4:
        want = "Unexpected `%s[%s]`\n" % (model.text(e[3]), KIND[e[4]])
    elif e[2] == "end":
        want = "Unexpected end of input\n"
    else:
        return None
    if list(g[1]) != list(e[1]):
        return None         # another token: not the message's fault
    if not m[len(head):].startswith(want):
        return "the message %s does not name what is in the way: %s" % (json.dumps(m[:400]), json.dumps(want[:300]))


def long_lexemes(quick):
    """tokens and malformed ones of every length, with a character of several bytes somewhere: wherever one is cut or counted"""
    ks = list(range(0, 72)) + [126, 127, 128, 254, 255, 256, 257, 510, 511, 512, 1022, 1023, 1024, 1025]
    if not quick:
        ks = list(range(0, 300)) + ks[75:]
    res = []
    for k in ks:
        one, q = "1" * k, "q" * k
        res += [one + "\u00e9", "-" + one + "\U0001f600" + one[:3], "1." + one + "\u2028x", one + "e\u00e9", '"' + q + "\u00e9", '"' + q + "\\\u00e9" + '"', '"""' + q + "\u00e9", '"' + q + "\u00e9x\"",
                '"""' + q + "\U0001f600\u00e9\"\"\"", q + "a\u00e9"]
    return res


@prop("C25")
def c25(ck):
    for kind in inputs.KINDS:
        ck.judge([c for c in ck.tour(kind, 1, 6 if ck.quick else 7) if not ok(c.exp[0])], "tour", named_fault)
        ck.judge(ck.words(words_in_slots(kind, QUERY_SLOTS if kind == "QDoc" else SCHEMA_SLOTS), invariants=False), "every word in every slot", named_fault)
    # tokens of every shape in the way
    shapes = sorted(set(gen.INTS + gen.FLOATS)) + ['""', '"\\n"', '"\t\r"', '"\u00e9\U0001f600"', '"`"', '"\n"', '""""""', '"""\n"""', '"""a\r\n  b\n"""', '"""\\""""""', "...", "a", "_", "A1", "q" * 300,
                                                     '"' + "q" * 300 + '"', '"Expected"', '"""Unexpected"""', "true", "null", "query", "on"]
    confs = [{"letters": shapes, "pre": p + f, "post": q, "min": 1, "max": 1, "req": [["parse", k]]}
             for k, p, q in [("QDoc", "{a ", " }"), ("QDoc", "{a(", ")}"), ("QDoc", "{a} ", ""), ("QDoc", "query($", ""), ("QDoc", "fragment ", " x"), ("QDoc", "{a(x:1 ", ""),
                             ("SDoc", "", ""), ("SDoc", "type A ", " {"), ("SDoc", "union A= ", "|"), ("SDoc", "extend ", ""), ("SDoc", "schema{", "}"), ("SDoc", "directive@a on ", " FIELD"), ("SDoc", "enum A{", ":")]
             for f in ("", "\n\t")]
    ck.judge(ck.words(confs, invariants=False), "tokens of every shape", named_fault)
    confs = [{"letters": long_lexemes(ck.quick), "pre": p, "post": q, "min": 1, "max": 1, "req": [["parse", k]]} for k, p, q in [("QDoc", "{a ", " }"), ("SDoc", "enum A{", " :")]]
    ck.judge(ck.words(confs, invariants=False), "tokens of every length", named_fault)

    def go(n):
        cs = []
        for kind in inputs.KINDS:
            cs += doc_cases(ck, kind, n, [["parse", kind]], modes=["wild", "pretty", "space", "line"], wild=0.6, bad=0.02, p_tok=0.9, p_char=0.1)
            for s in inputs.documents(ck, kind, n // 3, wild=0.5):
                cs.append(Case(s[:ck.rng.randrange(len(s) + 1)], [["parse", kind]]))
        ck.judge(ck.expect(cs, ["HistoryInStep"]), "random documents", named_fault)
    batches(ck, 600, go)


# ------------------------------------------------- what a message says of malformed text: C27
def unquoted(m, i):
    """the text quoted at m[i:] as Rust shows characters and strings, and where the quotation ends"""
    q, out, i = m[i], [], i + 1
    while i < len(m) and m[i] != q:
        if m[i] != "\\":
            out.append(m[i])
            i += 1
            continue
        x = m[i + 1:i + 2]
        if x == "u":
            e = m.index("}", i)
            out.append(chr(int(m[i + 3:e], 16)))
            i = e + 1
        else:
            out.append({"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(x, x))
            i += 2
    return "".join(out), i + 1


def says(line, parts):
    """whether line is the parts of an expected line (GqlLex!Malformed)"""
    i = 0
    for how, want in parts:
        want = model.text(want)
        if how == "":
            if not line.startswith(want, i):
                return False
            i += len(want)
        else:
            if line[i:i + 1] != {"c": "'", "s": '"'}[how]:
                return False
            try:
                t, i = unquoted(line, i)
            except ValueError:
                return False
            if t != want:
                return False
    return i == len(line)


def meant(parts):
    return "".join(json.dumps(model.text(t)) if how else model.text(t) for how, t in parts)


def described_fault(c):
    for k, r in enumerate(c.req):
        e, g = c.exp[k], out(c, k)
        if e[0] != "err" or g[0] != "err" or died(c) or e[2] in ("token", "end"):
            continue
        m, lines = model.text(g[2]), e[3]
        if r[0] == "minify":
            head = "query minify error: "
            if not (m.startswith(head) and says(m[len(head):], lines[0])):
                return "minifying says %s, not %s" % (json.dumps(m[:300]), json.dumps(meant(lines[0])[:300]))
            continue
        if list(g[1]) != list(e[1]):
            continue        # another fault is reported
        got = m.split("\n")[1:]
        known = [l for l in got if l.startswith("Unexpected ") and l != "Unexpected end of input"]
        if e[4] and not known and "Expected end of input" in got:
            continue        # the text before is a document
        i = 0
        for l in lines:
            at = [j for j in range(i, len(got)) if says(got[j].removeprefix("Expected "), l)]
            # a message begins with what it did not expect
            if not at or l is lines[0] and at[0] > 0 and "".join(map(chr, l[0][1])).startswith("Unexpected"):
                return "the message %s does not say %s" % (json.dumps(m[:400]), json.dumps(meant(l)[:300]))
            i = at[0] + 1
        for l in known:
            if not any(says(l, x) for x in lines):
                return "the message %s says %s, which is not so" % (json.dumps(m[:400]), json.dumps(l[:300]))


# characters that are shown in different ways
ODD = ["\x00", "\x01", "\x07", "\x1b", "\x7f", "\x80", "\x85", "\x9f", "\xa0", "\xad", "\u00e9", "\u0301", "\u200b", "\u200d", "\u2028", "\u202e", "\u3000", "\ue000", "\ufffd", "\ufffe", "\uffff",
       "\U0001f600", "\U000e0001", "\U0010ffff", "'", "\\", "`", "%", ";", "?", "*", "+", "/", "<", ">", "^", "~", "-"]


@prop("C27")
def c27(ck):
    for kind in inputs.KINDS:
        req = [["parse", kind], ["minify"]]
        cs = [Case(c.src, req) for c in ck.tour(kind, 1, 5 if ck.quick else 7) if c.exp[0][0] == "err" and c.exp[0][2] not in ("token", "end")]
        ck.judge(ck.expect(cs), "tour", described_fault)
    # every malformed piece of text in every hole, and alone
    pieces = sorted(set(gen.BAD_INTS + gen.BAD_FLOATS + ["..", ".", ".5", "-", "+1", "0.", "1e", "1.e1", "1e1.5", "-01", "00", "01.5", "1_", "1e0", "1e01", "1.5.5", "1" + "0" * 19, "-1" + "0" * 19, "9" * 300,
                                                         "1e309", "-1.8e308", "1" + "0" * 400 + ".5"] + ODD + ["1" + x for x in ODD if x not in '"\\'] + ["1." + x for x in ODD] +
                        ['"', '"a', '"\n"', '"\\"', '"a\\\n"', '"""', '"""a""', '"""\\"""', '""""', '"\\', '"""\n\n\\"""\n']))
    escapes = ['"%s\\%s"' % (a, b) for a in ("", "a", "\\n", "\\u0041") for b in
               ["u", "u1", "u12", "u123", "u12g4", "ug", "u{41}", "uD800", "uDFFF", "udbFF", "uDC00", "x", "a", "0", "'", "U0041", "N", "\u00e9", "\U0001f600", " ", "\t", "u\u00e9", "u00 1", "uD800\\uDC00", "u\\n", "1", "\x00", "`"]]
    confs = [{"letters": pieces + escapes, "pre": p + f, "post": q, "min": 1, "max": 1, "req": [["parse", k], ["minify"]]}
             for k, p, q in inputs.VALUE_HOLES + inputs.TEXT_HOLES + [("QDoc", "", ""), ("QDoc", "{a} ", " "), ("QDoc", "{", "}"), ("QDoc", "query ", "{a}"), ("SDoc", "", ""), ("SDoc", "scalar A ", " "),
                                                                      ("SDoc", "extend type A ", "{a:B}"), ("SDoc", "union A=", "|B")]
             for f in ("", "\n\t ")]
    if ck.quick:
        confs = confs[::2] + confs[1::6]
    ck.judge(ck.words(confs, invariants=False), "every malformed piece in every hole", described_fault)
    confs = [{"letters": long_lexemes(ck.quick), "pre": p, "post": q, "min": 1, "max": 1, "req": [["parse", k], ["minify"]]} for k, p, q in [("QDoc", "{a(x:", ")}"), ("SDoc", "", "")]]
    ck.judge(ck.words(confs, invariants=False), "malformed text of every length", described_fault)
    # words of odd characters
    ck.judge(ck.words([{"letters": ["1", "e", ".", "-", "x", "\u00e9", '"', "\\", "u", "\n"], "pre": p, "post": q, "min": 0, "max": 3 if ck.quick else 4, "req": [["parse", "QDoc"], ["minify"]]}
                       for p, q in [("", ""), ("{a(x:", ")}")]], invariants=False), "words", described_fault)
    # definitions without a meaning
    ops = ["query:A ", "mutation:A ", "subscription:A ", "x:A ", "Query:A ", "schema:A "]
    ck.judge(ck.words([{"letters": ops, "pre": p + "schema{", "post": "}" + q, "max": 4 if ck.quick else 5, "req": [["parse", "SDoc"]]} for p, q in [("", ""), ("scalar A ", ""), ("", " %")]], invariants=False),
             "root operations", described_fault)
    exts = ["extend %s A" % k for k in ("scalar", "type", "interface", "union", "enum", "input")]
    ck.judge(ck.words([{"letters": exts, "pre": p, "post": q, "min": 1, "max": 1, "req": [["parse", "SDoc"]]} for p in ("", "scalar B ", '"d" scalar B\n') for q in ("", " scalar B", " %", " \"d\" type B", " )", "{a", " 01", " extend enum C")],
                      invariants=False), "empty extensions", described_fault)
    near = sorted(set(gen.LOCATIONS + [l.lower() for l in gen.LOCATIONS] + [l[:-1] for l in gen.LOCATIONS] + [l + "S" for l in gen.LOCATIONS] + ["on", "repeatable", "a", "_"]))
    ck.judge(ck.words([{"letters": near, "pre": "directive@d on " + p, "post": q, "min": 1, "max": 1, "req": [["parse", "SDoc"]]} for p, q in [("", ""), ("|", ""), ("FIELD|", ""), ("", "|QUERY"), ("FIELD|", "|nothing")]],
                      invariants=False), "directive locations", described_fault)
    deep = []
    for n in (49, 50, 51, 52, 60, 500):
        for o, x in (("{a", "}"), ("[", "]"), ("{a(x:{b:", "1})}"), ("{a(x:[", "])}"), ("(", ")"), ("query($a:" + "[", "]:"), ("{...{", "}}")):
            deep.append(Case(o * n + x * n, [["parse", "QDoc"], ["minify"]]))
            deep.append(Case("{a(x:" + o * n + x * n + ")}", [["parse", "QDoc"], ["minify"]]))
        deep.append(Case("type A{a:" + "[" * n + "B" + "]" * n + "}", [["parse", "SDoc"], ["minify"]]))
        deep.append(Case("type A{a(b:C=" + "[" * n + "]" * n + "):D}", [["parse", "SDoc"], ["minify"]]))
    ck.judge(ck.expect(deep), "nesting", described_fault)

    def go(n):
        cs = []
        for kind in inputs.KINDS:
            cs += doc_cases(ck, kind, n, [["parse", kind], ["minify"]], modes=["wild", "pretty", "space", "line"], wild=0.5, bad=0.15, p_tok=0.5, p_char=0.5)
            for s in inputs.documents(ck, kind, n // 3, wild=0.5):
                cs.append(Case(s[:ck.rng.randrange(len(s) + 1)] + ck.rng.choice(pieces + escapes), [["parse", kind], ["minify"]]))
        ck.judge(ck.expect(cs, ["HistoryInStep"]), "random documents", described_fault)
    batches(ck, 400, go)


# ------------------------------------------------------------ representations: C21
@prop("C21")
def c21(ck):
    reps = ["str", "string", "cow", "static"]

    def same(groups, kind):
        flat = [c for g in groups for c in g]
        ck.replay(flat, kind)
        for g in groups:
            for c in g[1:]:
                a, b = g[0].got, c.got
                if a == ["lost"] or b == ["lost"]:
                    continue
                if a != b:
                    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), 0)
                    ck.violation(c, "as %s: %s; borrowed: %s (request %s)" % ((c.rep,) + difference(b[k] if b else b, a[k] if a else a)[:2] + (show(c.req[min(k, len(c.req) - 1)]),)))
            for c in g:
                if died(c) or c.got == ["lost"]:
                    continue
                for o in c.got:
                    if o[0] == "nodes":
                        for kd, text, node, back in o[2]:
                            if kd == "into_static" and back != ["ok", node]:
                                ck.violation(c, "Value::into_static: %s became %s" % (show(node), show(back)))

    def four(src, req):
        return [Case(src, req, rep=p) for p in reps]

    def req(kind):
        return [["parse", kind], ["print"] + style(ck), ["nodes"]]
    groups = []
    n = 2 if ck.quick else 3
    words = ck.words([{"letters": ["a", '\\"', "\\n", "\\u00e9", "\u00e9", "\t"], "pre": '{a(x:"', "post": '")}', "max": n, "req": [["parse", "QDoc"]]},
                      {"letters": ["a", "\n", " ", '\\"""', "\u00e9"], "pre": '{a(x:"""', "post": '""")}', "max": n, "req": [["parse", "QDoc"]]},
                      {"letters": ["a", "\n", " ", '\\"""', "\u00e9"], "pre": '"""', "post": '""" scalar A', "max": n, "req": [["parse", "SDoc"]]},
                      {"letters": inputs.LEXEMES + ["\u00e9"], "pre": "{a(x:", "post": ")}", "max": 2, "req": [["parse", "QDoc"]]}], invariants=False)
    for c in words:
        groups.append(four(c.src, req(c.req[0][1])))
    for kind in inputs.KINDS:
        tours = ck.tour(kind, 1, 4 if ck.quick else 6)
        for c in ck.rng.sample(tours, min(len(tours), 2500 if ck.quick else 20000)):
            groups.append(four(c.src, req(kind)))
        some = [c for c in sentences(ck, kind) if ok(c.exp[0])]
        for c in ck.rng.sample(some, min(len(some), 1500 if ck.quick else 30000)):
            groups.append(four(c.src, req(kind)))
    same(groups, "all short texts, a tour and sentences, in every representation")

    def go(n):
        groups = []
        for kind in inputs.KINDS:
            for s in inputs.documents(ck, kind, n, wild=0.7, bad=0.02, p_tok=0.15, p_char=0.1):
                groups.append(four(s, req(kind) + ([["consume"]] if kind == "QDoc" else [])))
        # the model has one notion of a tree: what it expects goes for all representations
        first = [g[0] for g in groups][:200]
        for c in first:
            c.req = c.req[:1]
        ck.expect(first, ["HistoryInStep"])
        for g in groups[:200]:
            g[0].req = g[1].req
        same(groups, "random documents in every representation")
        for g in groups[:200]:
            for c in g[1:]:
                if not died(g[0]) and not died(c) and alike(g[0].exp[0], g[0].got[0]) and not alike(g[0].exp[0], c.got[0]):
                    ck.violation(c, "as %s: %s, expected %s" % (c.rep, show(c.got[0]), show(g[0].exp[0])))
    batches(ck, 700, go)
    groups = []
    for kind in inputs.KINDS:
        for c in scale.giants(ck, kind, 2 if ck.quick else 20) + scale.stretched(ck, kind, lambda t: not ck.quick or ck.rng.random() < 0.4):
            groups.append(four(c.src, req(kind)[:3 if len(c.src) < 6000 else 2]))
    same(groups, "long texts in every representation")


# --------------------------------------------------------------- locations: C22
PARTS = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT", "DEFINITION", "SPREAD", "INLINE", "SCHEMA", "SCALAR", "OBJECT", "TYPE", "ARGUMENT", "INTERFACE", "UNION",
         "ENUM", "VALUE", "INPUT", "VARIABLE", "DIRECTIVE", "OPERATION", "EXTENSION", "DEF"]


@prop("C22")
def c22(ck):
    r = ck.rng
    names = list(gen.LOCATIONS)
    near = set(names)
    for x in names:
        near |= {x.lower(), x.title(), x.capitalize(), x + "S", x + "_", "_" + x, x[:-1], x[1:], x + " ", " " + x, x.replace("_", ""), x.replace("_", " "), x.replace("_", "-"), x + "\n", x + "\x00",
                 x[0].lower() + x[1:], x[:-1] + x[-1].lower(), x + x, x + "_DEFINITION", x.replace("_DEFINITION", ""), x.replace("INPUT_", ""), x.replace("FRAGMENT_", ""), '"%s"' % x, x.replace("I", "\u0130"),
                 x.replace("E", "\u0415"), x[::-1], x + "#", "".join(ch.lower() if k % 2 else ch for k, ch in enumerate(x))}
        for k in range(len(x)):
            near.add(x[:k] + x[k + 1:])
            near.add(x[:k] + r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ_") + x[k + 1:])
            near.add(x[:k] + x[k] + x[k:])
    near |= {"_".join(w) for k in (1, 2, 3) for w in itertools.product(PARTS, repeat=k)}
    near |= {"", "ENUMVALUE", "INPUTOBJECT", "INLINE", "SPREAD", "DEFINITION", "ARGUMENT", "INPUT", "VARIABLE", "VALUE", "TYPE", "DIRECTIVE", "FRAGMENT", "query", "Query", "InlineFragment"}
    cases = [Case(x, [["location"]]) for x in sorted(near)]
    ck.expect(cases)

    def f(c):
        if died(c):
            return c.got[0]
        if c.got[0] != [x if not isinstance(x, bool) else x for x in c.exp[0]]:
            return "as a location: expected %s, got %s" % (show(c.exp[0]), show(c.got[0]))
    ck.judge(cases, "every location name and near miss", f)

    # as written in directive definitions, in every order
    def doc(locs, rep="", pipe="", sep="|"):
        return "directive@d%s on%s %s" % (" repeatable" if rep else "", pipe, sep.join(locs))
    cases = [Case(doc([a]), [["parse", "SDoc"]]) for a in sorted(near) if a and a.replace("_", "a").isalnum() and a.isascii() and not a[0].isdigit()]
    cases += [Case(doc([a, b], pipe=r.choice(["", "|", " |"]), sep=r.choice(["|", " | ", "\n|"])), [["parse", "SDoc"]]) for a in names for b in names]
    for _ in range(300 if ck.quick else 3000):
        locs = [r.choice(names) for _ in range(r.randrange(3, 22))]
        if r.random() < 0.2:
            locs[r.randrange(len(locs))] = r.choice(sorted(near - {""})).strip() or "X"
        cases.append(Case(doc(locs, r.random() < .5, r.choice(["", "|"]), r.choice(["|", " | ", ",|\n"])) + r.choice(["", "\nscalar A", ' "d" type B']), [["parse", "SDoc"], ["print"] + style(ck), ["reread"]]))
    cases.append(Case(doc(names), [["parse", "SDoc"]]))
    ctl = Case("directive@d on", [["parse", "SDoc"]])
    ck.expect(cases + [ctl])
    ck.replay([ctl], "control")

    def dirs(o):
        return [[x[7 - 1], ] for x in o[1] if x[0] == "directive"]

    def h(c):
        if not alike(ctl.exp[0], out(ctl, 0)):
            return None
        e, g = c.exp[0], out(c, 0)
        if ok(e) != ok(g):
            return "%s; expected %s" % ("accepted" if ok(g) else "rejected: " + model.text(g[2])[:200] if not died(c) else c.got[0], show(e))
        if ok(e) and dirs(e) != dirs(g):
            return "locations: expected %s, got %s" % difference(dirs(e), dirs(g))
        if len(c.got) > 2 and ok(g) and (not ok(c.got[2]) or dirs(c.got[2]) != dirs(g)):
            return "locations printed and read back: %s became %s" % (show(dirs(g)), show(c.got[2]))
    ck.judge(cases, "directive definitions", h)


# ----------------------------------------------------------------- single nodes: C23
def standalone(c):
    if died(c):
        return c.got[0] if ok(c.exp[0]) else None
    if c.req[0][0] == "build" and strip(c.got[0][1]) != strip(model.norm(c.ast)):
        return "the constructors made another tree: expected %s, got %s" % difference(strip(model.norm(c.ast)), strip(c.got[0][1]))
    for k, o in enumerate(c.got):
        if o[0] != "nodes":
            continue
        if not o[1]:
            return "the default printing is not the default style"
        for kd, text, node, back in o[2]:
            if kd == "into_static":
                continue
            if back[0] != "ok":
                return "%s prints as %s, which is not one where it belongs: %s" % (kd, json.dumps(model.text(text)), model.text(back[1])[:300])
            if numbers_alike(node) != numbers_alike(back[1]):
                return "%s prints as %s, which reads back differently: %s became %s" % ((kd, json.dumps(model.text(text))) + difference(numbers_alike(node), numbers_alike(back[1])))


@prop("C23")
def c23(ck):
    r = ck.rng
    for kind in inputs.KINDS:
        cs = [c for c in ck.tour(kind, 1, 5 if ck.quick else 6) if ok(c.exp[0])]
        if len(cs) > 12000:
            cs = r.sample(cs, 12000)
        for c in cs:
            c.req = [["parse", kind], ["nodes"]]
        ck.judge(cs, "nodes of a tour", standalone)
        cs = [c for c in sentences(ck, kind) if ok(c.exp[0])]
        cs = r.sample(cs, min(len(cs), 4000 if ck.quick else 60000))
        for c in cs:
            c.req = [["parse", kind], ["nodes"]]
        ck.judge(cs, "nodes of every document of few tokens", standalone)
    if not ck.quick:
        cs = [c for c in ck.tour("SDoc", 1, 5, fine=True) if ok(c.exp[0])]
        for c in cs:
            c.req = [["parse", "SDoc"], ["nodes"]]
        ck.judge(cs, "nodes of a tour", standalone)
    confs = []
    for k in inputs.KINDS:
        confs += string_confs(k, inputs.VALUE_HOLES[:1] + inputs.VALUE_HOLES[6:7] + inputs.TEXT_HOLES[:1] + inputs.TEXT_HOLES[2:5], 2 if ck.quick else 4)
    confs += [{"letters": sorted(set(gen.INTS + gen.FLOATS)), "pre": "{a(x:", "post": ")}", "min": 1, "max": 1, "req": [["parse", "QDoc"]]}]
    cs = [c for c in ck.words(confs, invariants=False) if ok(c.exp[0])]
    for c in cs:
        c.req = c.req + [["nodes"]]
    ck.judge(cs, "string contents and numbers", standalone)

    def go(n):
        cs = []
        for kind in inputs.KINDS:
            cs += [Case(s, [["parse", kind], ["nodes"]]) for s in inputs.documents(ck, kind, n, wild=0.6)]
        ck.judge(ck.expect(cs), "nodes of random documents", standalone)
        # trees by hand: those of the specification, with other strings in them, definitions swapped around
        built = []
        g = ck.gen()
        for c in cs:
            if not ok(c.exp[0]):
                continue
            kind = c.req[0][1]
            ast = perturb(ck, g, unbits(c.exp[0][1]))
            b = Case("", [["build", kind], ["nodes"]], rep="string", ast=ast)
            b.exp = [["ok", ast]]
            built.append(b)
        ck.expect(built)
        ck.judge(built, "nodes of trees made by hand", standalone)
        for _ in range(n // 3):
            strs = [[ord(ch) for ch in g.plain_text(r.randrange(0, 9))] for _ in range(r.randrange(1, 4))]
            kind, ast = tree_with(ck, strs, r.choice(SHAPES))
            b = Case("", [["build", kind], ["nodes"]], rep="string", ast=ast)
            built.append(b)
        ck.expect(built[-(n // 3):])
        ck.judge(built[-(n // 3):], "nodes of trees with hard strings", standalone)
    batches(ck, 250, go)


def unbits(x):
    """floats back from bits to a literal"""
    import struct
    if isinstance(x, list) and x and not isinstance(x[0], int):
        if x[0] == "float" and len(x) == 2:
            v = struct.unpack(">d", bytes.fromhex(x[1]))[0]
            t = repr(v)
            t = t.replace("inf", "0")
            if "e" in t:
                m, e = t.split("e")
                t = (m if "." in m else m + ".0") + "e" + ("-" if e[0] == "-" else "+") + e.lstrip("+-0")
            return ["float", [ord(ch) for ch in t]]
        return [unbits(y) for y in x]
    return x


def perturb(ck, g, x):
    """another well-formed tree: strings replaced, siblings dropped or doubled"""
    r = ck.rng
    if not isinstance(x, list) or not x or isinstance(x[0], int):
        return x
    if x[0] == "str" and len(x) == 2:
        return ["str", [ord(ch) for ch in g.plain_text(r.randrange(0, 7))]] if r.random() < 0.6 else x
    y = [perturb(ck, g, e) for e in x]
    if x[0] == "sel" and len(x[3]) > 1 and r.random() < 0.3:
        y[3] = y[3][1:]
    if x[0] in ("field", "inline", "spread") and r.random() < 0.2:
        k = {"field": 5, "inline": 3, "spread": 3}[x[0]]
        y[k] = y[k] + y[k] if r.random() < 0.5 else []
    if x[0] in ("query", "mutation", "subscription") and r.random() < 0.3:
        y[0] = r.choice(["query", "mutation", "subscription"])
    if x[0] == "directive" and not x[6]:
        y[6] = [[ord(ch) for ch in "FIELD"]]   # with none, it can only stand before a description or at the end
    if x[0] in ("type", "interface") and r.random() < 0.3:
        y[6] = [] if r.random() < 0.5 else y[6]
        y[2] = [] if r.random() < 0.5 else [[ord(ch) for ch in g.plain_text(4)]]
    return y


# --------------------------------------------------------------------- equality: C26
RICH = {
    "QDoc": ["query", "q", "(", "$", "v", ":", "[", "Tt", "!", "]", "!", "=", "[", "{", "k", ":", "17", "j", ":", "-2.5e3", "}", '"st"', "enu", "true", "null", "]", "$", "w", ":", "Tu", "=", '"""bl"""', ")",
             "@", "d", "(", "x", ":", "[", "$", "y", "]", ")", "{", "al", ":", "nm", "(", "ar", ":", "{", "k", ":", "false", "}", ")", "@", "e", "{", "in", "}", "...", "sp", "@", "f", "...", "on", "Cc", "@", "g", "{", "b", "}",
             "...", "@", "h", "{", "c", "}", "...", "{", "cc", "}", "}", "mutation", "m", "(", "$", "v", ":", "Tv", ")", "@", "d", "{", "a", "}", "subscription", "s", "(", "$", "u", ":", "Tw", ")", "@", "d", "{", "a", "}",
             "fragment", "fr", "on", "Td", "@", "i", "{", "a", "}", "query", "{", "z", "}", "mutation", "{", "z", "}", "subscription", "{", "z", "}", "{", "y", "{", "yy", "}", "}"],
    "SDoc": ["schema", "@", "d", "{", "query", ":", "Qq", "mutation", ":", "Mm", "subscription", ":", "Ss", "}", '"de"', "scalar", "Sc", "@", "d", '"""df"""', "type", "Ty", "implements", "&", "Ia", "&", "Ib", "@", "d", "{",
             '"dg"', "fi", "(", '"dh"', "ar", ":", "[", "Aa", "!", "]", "=", "[", "1", "]", "@", "d", ")", ":", "Tt", "!", "@", "d", "f2", ":", "U", "}", '"di"', "interface", "In", "implements", "Ic", "@", "d", "{", "g", ":", "G", "}",
             '"dj"', "union", "Un", "@", "d", "=", "|", "Ua", "|", "Ub", '"dk"', "enum", "En", "@", "d", "{", '"dl"', "Va", "@", "d", "Vb", "}", '"dm"', "input", "Io", "@", "d", "{", '"dn"', "h", ":", "H", "=", '"x"', "@", "d", "}",
             '"dp"', "directive", "@", "dd", "(", '"dq"', "x", ":", "X", "=", "1.5", ")", "repeatable", "on", "|", "FIELD", "|", "QUERY", "extend", "scalar", "Se", "@", "d", "extend", "type", "Te", "implements", "Id", "@", "d", "{", "i", ":", "I", "}",
             "extend", "interface", "Ie", "implements", "If", "@", "d", "{", "j", ":", "J", "}", "extend", "union", "Ue", "@", "d", "=", "Uc", "extend", "enum", "Ee", "@", "d", "{", "Vc", "}", "extend", "input", "Ig", "@", "d", "{", "k", ":", "K", "}"]}


# the same with several members in every list, so that a list with one member fewer, everything else in
# its place, is compared with the full one
LISTS = {
    "QDoc": ["query", "q", "(", "$", "v", ":", "T", "=", "[", "1", "2", "3", "]", "$", "w", ":", "T", ")", "@", "d", "(", "x", ":", "1", "y", ":", "2", "z", ":", "3", ")", "@", "e", "(", "x", ":", "$", "v", "y", ":", "{", "k", ":", "1", "l", ":", "2", "m", ":", "3", "}", ")", "@", "f",
             "{", "nm", "(", "ar", ":", "1", "br", ":", "2", "cr", ":", "3", ")", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "in", "iq", "ip", "}", "...", "sp", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e",
             "...", "on", "C", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "b", "c", "}", "...", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "b", "c", "}", "...", "{", "b", "c", "}", "}",
             "mutation", "m", "(", "$", "v", ":", "T", "$", "w", ":", "T", ")", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "a", "b", "}", "subscription", "s", "(", "$", "v", ":", "T", "$", "w", ":", "T", ")", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "a", "b", "}",
             "fragment", "fr", "on", "T", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "a", "b", "}", "{", "a", "b", "}"],
    "SDoc": ["schema", "@", "d", "(", "x", ":", "1", "y", ":", "2", "z", ":", "3", ")", "@", "e", "{", "query", ":", "Q", "mutation", ":", "M", "}", "scalar", "S", "@", "d", "(", "x", ":", "[", "1", "2", "]", "y", ":", "{", "k", ":", "1", "l", ":", "2", "}", ")", "@", "e",
             "type", "T", "implements", "A", "&", "B", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "f", "(", "a", ":", "T", "=", "[", "1", "2", "]", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "b", ":", "T", ")", ":", "T", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "g", ":", "T", "}",
             "interface", "I", "implements", "A", "&", "B", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "f", ":", "T", "g", ":", "T", "}", "union", "U", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "=", "A", "|", "B", "|", "C",
             "enum", "E", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "V", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "W", "X", "}", "input", "N", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "{", "f", ":", "T", "=", "1", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "g", ":", "T", "}",
             "directive", "@", "d", "(", "a", ":", "T", "b", ":", "T", "c", ":", "T", ")", "on", "FIELD", "|", "QUERY", "|", "ENUM", "extend", "scalar", "S", "@", "d", "(", "x", ":", "1", "y", ":", "2", ")", "@", "e", "extend", "type", "T", "implements", "A", "&", "B", "@", "d", "@", "e", "{", "f", ":", "T", "g", ":", "T", "}",
             "extend", "interface", "I", "implements", "A", "&", "B", "@", "d", "@", "e", "{", "f", ":", "T", "g", ":", "T", "}", "extend", "union", "U", "@", "d", "@", "e", "=", "A", "|", "B", "extend", "enum", "E", "@", "d", "@", "e", "{", "V", "W", "}", "extend", "input", "N", "@", "d", "@", "e", "{", "f", ":", "T", "g", ":", "T", "}"]}


def other_token(r, t):
    """another token of the same width, or None"""
    if t[0] == '"':
        q = 3 if t.startswith('"""') else 1
        k = [i for i in range(q, len(t) - q) if t[i].isalnum() and t[i - 1] != "\\" and t.isascii()]
    else:
        k = [i for i in range(len(t)) if t[i].isalnum()]
    if not k:
        return None
    i = r.choice(k)
    pool = "0123456789" if t[i].isdigit() else "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    return t[:i] + r.choice([x for x in pool if x != t[i]]) + t[i + 1:]


def zeros(x):
    """0.0 and -0.0 are one number to =="""
    if isinstance(x, list):
        return ["float", "0" * 16] if x == ["float", "8" + "0" * 15] else [zeros(y) for y in x]
    return x


@prop("C26")
def c26(ck):
    r = ck.rng

    def apart(t, shift=None, by="  "):
        s = []
        for i, x in enumerate(t):
            s.append((" " if i == shift else by) + x + (" " if i == shift else ""))
        return "".join(s)

    def variants(kind, t, all_):
        a = apart(t)
        res = [(a, a), (a, a.rstrip() + " # comment"), (a, apart(t, by=", ")), (a, "\ufeff" + a)]
        ks = range(len(t)) if all_ else r.sample(range(len(t)), min(len(t), 6))
        for k in ks:
            res.append((a, apart(t, k)))
            o = other_token(r, t[k])
            if o:
                res.append((a, apart(t[:k] + [o] + t[k + 1:])))
        if not all_:
            b = gen.mutate_tokens(t, r, 1)
            res.append((a, apart(b)))
            res.append((gen.layout(t, r, "wild"), gen.layout(t, r, "wild")))
        return [(y, x) if r.random() < 0.5 else (x, y) for x, y in res]

    def judge(pairs, what):
        cases = [Case(x, [["parse", kind], ["same", kind, model.codes(y)]], rep=r.choice(["str", "string", "cow", "static"])) for kind, x, y in pairs]
        ck.expect(cases)
        ck.replay(cases, what)
        alone = {}
        hurt = [c for c in cases if died(c) and c.exp[1][0] == "same"]
        calm = [Case(x, c.req[:1], rep=c.rep) for c in hurt for x in (c.src, model.text(c.req[1][2]))]
        ck.replay(calm, "the texts alone")
        for c, a, b in zip(hurt, calm[::2], calm[1::2]):
            if not died(a) and not died(b) and ["lost"] not in (a.got, b.got):
                ck.violation(c, "comparing with the tree of %s: %s" % (json.dumps(model.text(c.req[1][2])), c.got[0]))
        for c in cases:
            if died(c) or c.got == ["lost"] or c.exp[1][0] != "same" or c.got[1][0] != "same" or c.got[0] != c.exp[0]:
                continue            # a text that is read wrongly is not what this is about
            y = model.text(c.req[1][2])
            alone.setdefault((c.req[0][1], y), Case(y, [["parse", c.req[0][1]]]))
        ck.replay(list(alone.values()), "the other texts alone")
        for c in cases:
            if died(c) or c.got == ["lost"] or c.exp[1][0] != "same" or c.got[1][0] != "same" or c.got[0] != c.exp[0]:
                continue
            y = alone[c.req[0][1], model.text(c.req[1][2])]
            if y.got[0] != ["ok", c.exp[1][1]]:
                continue
            want = zeros(c.exp[0][1]) == zeros(c.exp[1][1])
            got = c.got[1]
            if got[1][:3] != [want] * 3:
                ck.violation(c, "the trees of this and of %s are %s, yet ==, == the other way round and not != say %s"
                             % (json.dumps(model.text(c.req[1][2])), "the same" if want else "different: %s, %s" % difference(zeros(c.exp[0][1]), zeros(c.exp[1][1])), got[1][:3]))
            elif not got[1][3] or not got[2]:
                ck.violation(c, "a clone differs from its original")

    judge([(k, x, y) for k in inputs.KINDS for x, y in variants(k, RICH[k], True)], "every token moved or replaced")

    # parts left out or swapped, everything else in its place; also where all names are the same
    def blank(t, i, j):
        return t[:i] + [" " * len(x) for x in t[i:j]] + t[j:]

    pairs = []
    keep = set(gen.KEYWORD_NAMES) | set(gen.LOCATIONS)
    for kind in inputs.KINDS:
        plain = ["n" * len(x) if x[0].isalpha() and x not in keep else x for x in RICH[kind]]
        plain = ["n" if set(x) == {"n"} else x for x in plain]
        for t in (RICH[kind], plain):
            a = apart(t)
            for i in range(len(t)):
                for j in range(i + 1, min(len(t), i + 9) + 1):
                    if j - i <= 4 or r.random() < 0.3:
                        pairs.append((kind, a, apart(blank(t, i, j))))
                        if len(t[i:j]) == 2 or r.random() < 0.1:
                            m = (i + j) // 2
                            pairs.append((kind, a, apart(t[:i] + t[m:j] + t[i:m] + t[j:])))
        t = LISTS[kind]
        a = apart(t)
        for i in range(len(t)):
            for j in range(i + 1, min(len(t), i + 9) + 1):
                if j - i in (1, 2, 3) or t[i] == "@" or r.random() < 0.1:
                    pairs.append((kind, a, apart(blank(t, i, j))))
        for t in inputs.token_lists(ck, kind, 20 if ck.quick else 600, wild=0.1, sizes=(8, 15, 30)):
            a = apart(t)
            for _ in range(12 if len(t) < 150 else 0):
                i = r.randrange(len(t))
                pairs.append((kind, a, apart(blank(t, i, min(len(t), i + r.choice((1, 2, 2, 3, 3, 3, 4, 5, 6)))))))
    # most of these are rejected by the specification; the rest are compared
    small = [Case(y, [["parse", k]]) for k, _, y in pairs]
    ck.expect(small, ["HistoryInStep"])
    pairs = [p for p, c in zip(pairs, small) if ok(c.exp[0])]
    judge(pairs, "parts left out or swapped")

    # long lexemes and lists that differ in one place
    pairs = []
    for n in (17, 33, 65, 130, 260) if ck.quick else (17, 33, 65, 129, 130, 257, 260, 520, 1030):
        for kind, p, x, y, q in (("QDoc", '{a(x:"', "x", "z", '")}'), ("QDoc", '{a(x:"""', "x", "z", '""")}'), ("QDoc", "{a(x:", "x", "z", ")}"), ("QDoc", "{a(x:$", "x", "z", ")}"), ("QDoc", "{", "x", "z", "}"), ("QDoc", "{a(", "x", "z", ":1)}"),
                                 ("QDoc", "{...", "x", "z", "}"), ("QDoc", "query ", "x", "z", "{a}"), ("QDoc", "query($v:", "x", "z", "){a}"), ("QDoc", "{a@", "x", "z", "}"), ("QDoc", "{a(x:{", "x", "z", ":1})}"), ("SDoc", '"', "x", "z", '"scalar A'),
                                 ("SDoc", "type ", "x", "z", ""), ("SDoc", "union A=", "x", "z", ""), ("SDoc", "enum A{", "x", "z", "}"), ("SDoc", "type A{", "x", "z", ":B}"), ("QDoc", "{a(x:0.", "1", "2", ")}")):
            if n > 300 and y == "2":
                continue
            a = p + x * n + q
            for i in (n - 1, n - 1 - r.randrange(n // 2), n // 2):
                pairs.append((kind, a, p + x * i + y + x * (n - 1 - i) + q))
    for kind in inputs.KINDS:
        for p, u, q in scale.MIXED[kind]:
            a = p + u * r.randrange(4, 9) + q
            for _ in range(2 if ck.quick else 12):
                i = r.choice([i for i in range(len(p), len(a)) if a[i].isalnum()])
                pairs.append((kind, a, a[:i] + (r.choice("qvwkl") if a[i].isalpha() else r.choice("45678")) + a[i + 1:]))
    small = [Case(y, [["parse", k]]) for k, _, y in pairs]
    ck.expect(small, ["HistoryInStep"])
    judge([p for p, c in zip(pairs, small) if ok(c.exp[0])], "long texts that differ in one place")

    # values, types and names of all kinds compared with one another
    vals = ["0", "-0", "1", "-1", "10", "2147483648", "-2147483648", "4294967296", "9007199254740992", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775806",
            "0.0", "-0.0", "0e1", "1.0", "1e+0", "-1.0", "1.0000000000000002", "1.0000000000000004", "0.3", "0.30000000000000004", "1e-20", "2e-20", "5e-324", "1e-323", "-5e-324", "1e300", "1.0000000000000002e300", "9007199254740992.0", "9007199254740994.0",
            '""', '" "', '"a"', '"A"', '"a "', '"ab"', '"1"', '"true"', '"null"', '"$v"', '"\\u00e9"', '"\u00e9"', '"e\u0301"', '"\u0000"', '"\\n"', '"\\r\\n"', '"""a"""', '"""\u00e9"""', "true", "false", "null", "a", "A", "ab", "True", "NULL", "_", "$a", "$A", "$ab", "$true",
            "[]", "[[]]", "[[],[]]", "[a]", "[a,b]", "[b,a]", "[a,a]", "[a,b,c]", "[null]", "[1]", "[1.0]", "{}", "[{}]", "{a:a}", "{a:b}", "{b:a}", "{a:a,b:b}", "{b:b,a:a}", "{a:b,b:a}", "{a:a,c:b}", "{a:a,b:b,c:c}", "{a:{}}", "{a:[]}", "{a:{b:a}}", "{a:{a:a}}", "{A:a}", "{a:1}", "{a:1.0}"]
    types = ["T", "t", "TT", "T!", "[T]", "[T!]", "[T]!", "[T!]!", "[[T]]", "[[T]!]", "[[T!]]", "[[T]]!", "[[T!]!]!", "[TT]", "[[[T]]]", "U"]
    names = ["a", "A", "b", "ab", "aB", "Ab", "a_", "_a", "_", "__", "a1", "a11", "on", "query", "n" * 20, "n" * 19 + "m", "m" + "n" * 19]
    pairs = []
    for some, holes in ((vals, [("QDoc", "{a(x:", ")}"), ("QDoc", "{a(x:[{y:", "}])}"), ("SDoc", "scalar A @d(x:", ")")]),
                        ([v for v in vals if "$" not in v], [("QDoc", "query($v:T=", "){a}"), ("SDoc", "type A{b(c:D=", "):E}")]),
                        (types, [("QDoc", "query($v:", "){a}"), ("SDoc", "type A{b:", "}"), ("SDoc", "input A{b:[", "]}")]),
                        (names, [("QDoc", "{", "}"), ("QDoc", "query ", "{a}"), ("QDoc", "{a @", "}"), ("QDoc", "{a(", ":1)}"), ("SDoc", "scalar ", ""), ("SDoc", "union A=", ""), ("SDoc", "type A implements ", "{b:C}")])):
        w = max(map(len, some)) + 1
        both = [(x, y) for i, x in enumerate(some) for j, y in enumerate(some)]
        for n, (kind, p, q) in enumerate(holes):
            for x, y in (both if n == 0 or not ck.quick else r.sample(both, min(len(both), 500))):
                if ck.quick and n == 0 and some is vals and abs(some.index(x) - some.index(y)) > 6 and r.random() < 0.8:
                    continue
                pairs.append((kind, p + " " + x.ljust(w) + q, p + " " + y.ljust(w) + q))
    judge(pairs, "values, types and names compared")

    # positions
    some = sorted({(a, b) for a in (0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 65536) for b in (0, 1, 2, 8, 9, 10, 80, 256, 70000)})
    cases = []
    for _ in range(30 if ck.quick else 300):
        ps = r.sample(some, r.randrange(2, 9))
        ps += r.sample(ps, 1)
        cases.append(Case("", [["order", [list(p) for p in ps]]]))
    ck.expect(cases)
    ck.judge(cases, "positions compared", lambda c: None if c.got == c.exp else "positions %s: expected %s, got %s" % (c.req[0][1], show(c.exp[0], 600), show(c.got[0], 600)))

    def go(n):
        pairs = []
        for kind in inputs.KINDS:
            for t in inputs.token_lists(ck, kind, n, wild=0.3, sizes=(3, 8, 15)):
                t = [x for x in t if "\n" not in x and "\r" not in x] if r.random() < 0.5 else t
                pairs += [(kind, x, y) for x, y in r.sample(variants(kind, t, False), 6)]
        judge(pairs, "random documents compared")
    batches(ck, 130, go)


# ------------------------------------------------------------ made by hand: C28
MADE = ["scalar", "type", "interface", "union", "enum", "input", "directive", "enumval", "scalar+", "type+", "interface+", "union+", "enum+", "input+"]


def as_made(c):
    if died(c):
        return c.got[0]
    for k, r in enumerate(c.req):
        e, g = c.exp[k], out(c, k)
        if r[0] == "new" and g != e:
            return "the constructor gives %s, not %s" % (show(g), show(e))
        if r[0] in ("default", "number") and g != e:
            return "%s gives %s, not %s" % (r[0], show(g), show(e))
        if r[0] == "print" and g[1] != model.codes(model.text(e[1])):
            return "a bare definition is printed %s, not %s" % (json.dumps(model.text(g[1])[:200]), json.dumps(model.text(e[1])[:200]))
        if r[0] == "reread" and (ok(e) != ok(g) or ok(e) and strip(g[1]) != strip(e[1])):
            return "a bare definition is read back as %s, not %s" % (show(g), show(e))


@prop("C28")
def c28(ck):
    r = ck.rng
    names = sorted(set(gen.KEYWORD_NAMES + gen.NEAR_KEYWORDS + gen.WELL_KNOWN + gen.LOCATIONS + ["a", "A", "_", "__", "A1", "Z_9", "query", "new", "x" * 300]))
    # whatever the text, it is the name
    odd = ["", " ", "a b", "1", "-", "\u00e9", "\U0001f600", '"', "\n", "a\n", "\\", "@", "on", " A ", "\ufeff", "\x00", "a\u0301", "A" * 257]
    cs = [Case(n, [["default"], ["new", [t]], ["print", 0, True], ["print", 2, False], ["reread"]], rep=rep) for rep in ("str", "string", "cow") for n in names for t in MADE]
    cs += [Case(n, [["new", [t]]], rep=rep) for rep in ("str", "string", "cow") for n in odd for t in MADE]
    cs += [Case(n, [["new", list(p)], ["print", 3, False], ["reread"]], rep=rep) for rep in ("str", "string", "cow") for n in ("A", "type", "on") for p in itertools.product(MADE, repeat=2)]
    ints = {0, 1, -1, 2 ** 31 - 1, -2 ** 31, 10, 2 ** 16, 2 ** 16 - 1, 2 ** 16 + 1, 255, 256, -128, -129, 2 ** 24 + 1, 2 ** 31 - 2}
    ints |= {x * 2 ** k + d for k in range(31) for d in (-1, 0, 1) for x in (1, -1)}
    ints |= {r.randrange(-2 ** 31, 2 ** 31) for _ in range(300 if ck.quick else 6000)}
    cs += [Case(str(n), [["number"]]) for n in sorted(ints) if -2 ** 31 <= n < 2 ** 31]
    ck.judge(ck.expect(cs, ["HistoryInStep"]), "constructors", as_made)

    def go(n):
        cs = []
        for _ in range(n):
            name = "".join(r.choice("abzAZ_019") for _ in range(r.randrange(1, 30)))
            if r.random() < 0.2:
                name = "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x110000), 10])) for _ in range(r.randrange(1, 20)))
                cs.append(Case(name, [["new", r.choices(MADE, k=r.randrange(1, 5))]], rep=r.choice(["str", "string", "cow"])))
            else:
                cs.append(Case(name, [["new", r.choices(MADE, k=r.randrange(1, 6))], ["print", r.randrange(0, 9), r.random() < 0.5], ["reread"]], rep=r.choice(["str", "string", "cow"])))
        ck.judge(ck.expect(cs, ["HistoryInStep"]), "random names", as_made)
    batches(ck, 600, go)


# ---------------------------------------------------------------- independence: C24
@prop("C24")
def c24(ck):
    r = ck.rng

    def go(n):
        parts = {}
        for kind in inputs.KINDS:
            ds = inputs.documents(ck, kind, n, sizes=(3, 8, 15), wild=0.5, maxrep=2)
            tour = [c.src for c in toured[kind]]
            ds += r.sample(tour, min(len(tour), n * 2))
            # a directive definition without locations takes a following name for one: only at the end
            parts[kind] = [Case(s, [["parse", kind], ["print", 2, False]]) for s in ds]
        flat = parts["QDoc"] + parts["SDoc"]
        ck.expect(flat)
        ck.replay(flat, "documents alone")
        groups = []
        for kind in inputs.KINDS:
            good = [c for c in parts[kind] if not died(c) and c.got != ["lost"] and ok(c.got[0]) and ok(c.exp[0]) and not open_ended(c)]
            last = [c for c in parts[kind] if not died(c) and c.got != ["lost"] and ok(c.got[0]) and ok(c.exp[0])]
            if not good:
                continue
            for _ in range(n):
                k = r.choice([1, 1, 2, 3, 6])
                cs = [r.choice(good) for _ in range(k)] + [r.choice(last)]
                s = ""
                for c in cs:
                    if s:
                        s += "\n" + r.choice(["", "", "\n", "# c\n", ", "])
                    s += c.src
                groups.append((cs, Case(s, [["parse", kind], ["print", 2, False]])))
        whole = [g[1] for g in groups]
        ck.expect(whole)
        ck.replay(whole, "concatenations")
        for cs, w in groups:
            if w.got == ["lost"]:
                continue
            g = out(w, 0)
            if not ok(w.exp[0]):
                raise model.ModelError("concatenation rejected by the specification: %r" % w.src)
            if not ok(g):
                ck.violation(w, "the concatenation of accepted documents is rejected: %s" % (model.text(g[2])[:300] if not died(w) else w.got[0]))
                continue
            want = [d for c in cs for d in strip(c.got[0][1])]
            if strip(g[1]) != want:
                ck.violation(w, "definitions differ from those alone: %s, here %s" % difference(want, strip(g[1])))
            elif [d for c in cs for d in strip(c.exp[0][1])] == want and g[1] != w.exp[0][1]:
                own = all(c.got[0][1] == c.exp[0][1] for c in cs)
                if own:
                    ck.violation(w, "positions are not shifted right: %s, here %s" % difference(w.exp[0][1], g[1]))
            elif w.got[1][1] != join_printed([c.got[1][1] for c in cs]):
                ck.violation(w, "printed differently from the definitions alone: " + first_difference(join_printed([c.got[1][1] for c in cs]), w.got[1][1]))
        # again, in another order, among other calls, in one process
        again = [Case(c.src, c.req, rep=c.rep) for c in flat + whole]
        order = list(range(len(again)))
        r.shuffle(order)
        mixed = [again[i] for i in order]
        junk = [Case(gen.mutate_chars(c.src, r, 2), c.req) for c in r.sample(mixed, min(len(mixed), 100))]
        for j in junk:
            mixed.insert(r.randrange(len(mixed)), j)
        ck.replay(mixed, "repeated in another order")
        for a, b in zip(flat + whole, again):
            if a.got != b.got and ["lost"] not in (a.got, b.got):
                ck.violation(b, "a second call gives something else: %s, first %s" % difference(b.got, a.got))
    toured = {k: [c for c in ck.tour(k, 1, 4) if ok(c.exp[0])] for k in inputs.KINDS}
    histories(ck)
    batches(ck, 400, go)

    # a great many definitions in one text
    for kind in inputs.KINDS:
        cs = scale.giants(ck, kind, 8 if ck.quick else 80, [2, False])
        used = {id(p): p for c in cs for p in c.tag}
        parts = list(used.values())
        ck.replay(parts, "parts of giant documents")
        wrong = {id(p) for p in parts if died(p) or p.got[0] != p.exp[0] or not text_matches(p.exp[1][1], p.got[1][1])}

        def whole(c):
            g = out(c, 0)
            if not ok(g):
                return "the concatenation of accepted documents is rejected: %s" % (model.text(g[2])[:300] if not died(c) else c.got[0])
            if g != c.exp[0]:
                return "definitions are not those alone, moved on: %s, here %s" % difference(c.exp[0][1], g[1])
            if not text_matches(c.exp[1][1], c.got[1][1]):
                return "printed differently from the definitions alone: " + first_difference(c.exp[1][1], c.got[1][1])
        cs = [c for c in cs if not any(id(p) in wrong for p in c.tag)]
        for c in cs:
            c.tag = None
        ck.judge(cs, "giant documents", whole)


def histories(ck):
    """every call directly after every other one in one process, and all of them at once in several threads"""
    r = ck.rng

    def call(src, *req):
        return Case(src, [list(q) for q in req], rep=r.choice(["str", "string", "cow"]))

    def parse(kind, s):
        return call(s, ("parse", kind), ("print", r.choice([0, 2, 3]), r.random() < 0.5))

    def deep(kind, d):
        while True:
            s = inputs.nest(r, kind, d)
            if s:
                return s
    pool = []
    for k in inputs.KINDS:
        pool += [parse(k, " ".join(RICH[k])), parse(k, ""), parse(k, "# x"), parse(k, "\ufeff;"), parse(k, deep(k, 51)), parse(k, deep(k, 50)), parse(k, deep(k, 12)), parse(k, "{" * 200), parse(k, "}" * 60),
                 parse(k, "{{{"), parse(k, '"'), parse(k, '"""'), parse(k, "01"), parse(k, "."), parse(k, inputs.siblings(r, k, 60))]
        pool += [parse(k, s) for s in inputs.documents(ck, k, 3, sizes=(8,), wild=0.4) + inputs.documents(ck, k, 3, sizes=(8,), wild=0.4, p_tok=1.0)]
    for s in ['{a(x:"\\q")}', '{a(x:"\\ud800")}', "{a(x:99999999999999999999)}", "{a(x:1e999)}", "{a(x:1.)}", "{a", "{a}}", "{a(x:[1", "query($v:", "{a(x:-0.0)}", '{a(x:"\\u00e9")}', '{a(x:"""\n  q\n   r""")}', "query($v:T=$w){a}"]:
        pool.append(parse("QDoc", s))
    for s in ["extend type A", "schema{query:A query:B}", "schema{x:A}", "directive@a on WHERE", "directive@a on FIELD|QUERY", '"d"', 'type A{"d"', "union A=", '"""\n  q\n   r"""scalar A', "type A implements"]:
        pool.append(parse("SDoc", s))
    for s in ["{a}", "", ";", "{" * 51, '"', "1...", "a b,c #d\n e", '"a" "b"', "}" * 60 + "{" * 60]:
        pool.append(call(s, ("minify",)))
    for s in ["{a}{b}", "", "{a} ;", "{a} {", "{" * 60, "query q{a}fragment f on T{b}", "{a", deep("QDoc", 50), "x"]:
        pool.append(call(s, ("consume",)))
    ck.expect(pool, ["HistoryInStep"])
    ck.replay(pool, "calls of every kind alone", workers=len(pool))
    good = [c for c in pool if not died(c) and c.got != ["lost"]]

    # a walk that takes every step between two calls once
    left = {i: r.sample(range(len(good)), len(good)) for i in range(len(good))}
    walk, stack = [], [0]
    while stack:
        if left[stack[-1]]:
            stack.append(left[stack[-1]].pop())
        else:
            walk.append(stack.pop())
    walk.reverse()
    ck.exhaustive.append("every call of %d kinds directly after every other one in one process" % len(good))
    seq = [Case(good[i].src, good[i].req, rep=good[i].rep) for i in walk]
    ck.replay(seq, "every call after every other", workers=1)
    for k, (i, c) in enumerate(zip(walk, seq)):
        if c.got != ["lost"] and c.got != good[i].got:
            before = good[walk[k - 1]]
            ck.violation(c, "after %s of %s the outcome is another: %s, alone %s" % ((before.req, json.dumps(before.src[:300])) + difference(c.got, good[i].got)))
    # texts that are nearly the same, one directly after another: what is kept of one must not be taken for the other
    fams = []
    for k in range(16 if ck.quick else 160):
        kind = inputs.KINDS[k % 2]
        t = inputs.documents(ck, kind, 1, sizes=(15, 30), modes=["tight", "pretty"], wild=0.2, maxrep=2)[0]
        if r.random() < 0.5:
            t = ("query AVeryLongNameToBeginWith_%d{a}" if kind == "QDoc" else "type AVeryLongNameToBeginWith_%d{b:C}\n") % k + t
        texts = [t]
        at = [len(t) - 1 - r.randrange(min(len(t), 12)), len(t) - 1 - r.randrange(min(len(t), 12)), len(t) // 2, len(t) * 3 // 4, r.randrange(len(t))]
        for i in at:
            texts.append(t[:i] + r.choice(";1=}a)]") + t[i + 1:])
        al = [i for i in range(len(t)) if t[i].isalpha()] or [0]
        for i in (al[-1], r.choice(al)):
            texts.append(t[:i] + ("q" if t[i] != "q" else "z") + t[i + 1:])
        texts += [t + " ;", t[:-1]]
        fams.append([call(x, ("parse", kind), ("print", 2, False)) for x in texts] + [call(texts[0], ("minify",)), call(texts[1], ("minify",)), call(texts[-3], ("minify",))]
                    + [call(x, ("consume",)) for x in texts[:3] if kind == "QDoc"])
    flat = [c for f in fams for c in f]
    ck.replay(flat, "nearly the same texts alone", workers=len(flat))
    seq, was = [], []
    for f in fams:
        f = [c for c in f if not died(c) and c.got != ["lost"]]
        for a in f:
            for b in f:
                for x in (a, b):
                    seq.append(Case(x.src, x.req, rep=x.rep))
                    was.append(x)
    ck.replay(seq, "nearly the same texts in turn", workers=1)
    for k, (a, c) in enumerate(zip(was, seq)):
        if c.got != ["lost"] and c.got != a.got:
            ck.violation(c, "after %s of %s the outcome is another: %s, alone %s" % ((seq[k - 1].req, json.dumps(seq[k - 1].src[:300])) + difference(c.got, a.got)))
    # at once
    n = 8
    docs = [parse(k, s) for k in inputs.KINDS for s in inputs.documents(ck, k, 150 if ck.quick else 1000, sizes=(8, 30), wild=0.5, p_tok=0.3)]
    ck.replay(docs, "documents alone")
    alone = [c for c in docs + good * 5 if not died(c) and c.got != ["lost"]]
    r.shuffle(alone)
    both = [Case(c.src, c.req, rep=c.rep) for c in alone]
    ck.threads(both, "calls in %d threads at once" % n, n)
    for c, a in zip(both, alone):
        wrong = [g for g in c.got if g != a.got]
        if wrong:
            ck.violation(c, "in one of %d threads the outcome is another: %s, alone %s" % ((n,) + difference(wrong[0], a.got)))
    lost = [c for c in both if len(c.got) < n]
    if lost:
        ck.violation(lost[0], "%d threads at once: %d of %d outcomes never came (here or before)" % (n, sum(n - len(c.got) for c in both), n * len(both)))


def join_printed(texts):
    res = []
    for t in texts:
        if res:
            res = res + [10]
        res = res + t
    return res


def open_ended(c):
    d = c.exp[0][1][-1]
    return d[0] == "directive" and d[6] == []
