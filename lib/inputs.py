"""Inputs for the checks: random documents, alphabets for enumeration, contexts, sweeps."""
import gen

KINDS = ("QDoc", "SDoc")


def documents(ck, kind, n, sizes=(3, 8, 15, 30), modes=gen.MODES, wild=0.25, bad=0.0, p_tok=0.0, p_char=0.0, maxrep=3):
    """n texts: grammatical token lists laid out somehow, some of them mutated"""
    g = ck.gen()
    g.wild, g.bad, g.maxrep = wild, bad, maxrep
    r = ck.rng
    res = []
    for _ in range(n):
        t = g.tokens(kind, r.choice(sizes))
        if r.random() < p_tok:
            t = gen.mutate_tokens(t, r, r.choice([1, 1, 1, 2, 3]))
        s = gen.layout(t, r, r.choice(modes))
        if r.random() < p_char:
            s = gen.mutate_chars(s, r, r.choice([1, 1, 2, 4]))
        res.append(s)
    return res


def token_lists(ck, kind, n, sizes=(3, 8, 15, 30), wild=0.25, bad=0.0, p_tok=0.0, maxrep=3):
    g = ck.gen()
    g.wild, g.bad, g.maxrep = wild, bad, maxrep
    res = []
    for _ in range(n):
        t = g.tokens(kind, ck.rng.choice(sizes))
        if ck.rng.random() < p_tok:
            t = gen.mutate_tokens(t, ck.rng, 1)
        res.append(t)
    return res


# Contexts with a hole for a value literal, as (start, before, after)
VALUE_HOLES = [
    ("QDoc", "{a(x:", ")}"),
    ("QDoc", "query q($v:T=", "){a}"),
    ("QDoc", "{a(x:[1,", "],y:2)}"),
    ("QDoc", "{a(x:{k:", " j:1})@d(z:0){b}}"),
    ("QDoc", "{a@d(x:", "){b}...f@e}"),
    ("SDoc", "type A{f(x:T=", "):U}"),
    ("SDoc", "input A{f:T=", "}"),
    ("SDoc", "enum A@d(x:", "){B}"),
    ("SDoc", "scalar A@d(x:[{k:", "}])"),
    ("SDoc", "directive@d(a:T=", ")on FIELD"),
]
# deeper ones
DEEP_HOLES = [
    ("QDoc", "query q($v:T=[1 ", " 2]){a}"),
    ("QDoc", "mutation m($u:T=1 $v:T={k:", " j:[]}){a}"),
    ("QDoc", "subscription($v:T={k:[", "]}){a}"),
    ("QDoc", "{a{...{b(x:{k:[{l:", "}]})}}}"),
    ("QDoc", "query q@d(x:[", "]){a}"),
    ("QDoc", "fragment f on T@d(x:", "){a}"),
    ("QDoc", "{...on T@d(x:{k:", "}){a}}"),
    ("SDoc", "type A{f(x:T=[", "]):U}"),
    ("SDoc", "extend input A{f:T={k:", "}}"),
    ("SDoc", "interface A{f:T@d(x:", ")}"),
    ("SDoc", "type A{f(x:T@d(x:{k:", "})):U}"),
    ("SDoc", "enum A{B@d(x:[", "])}"),
    ("SDoc", "schema@d(x:", "){query:Q}"),
    ("SDoc", "extend union A@d(x:", ")"),
    ("SDoc", "directive@d(a:T=[{k:", "}])on FIELD"),
]
# Contexts with a hole for a description
TEXT_HOLES = [
    ("SDoc", "", " type A{b:C}"),
    ("SDoc", "scalar X ", " interface A{b:C}"),
    ("SDoc", "type A{", " b:C}"),
    ("SDoc", "type A{b(", " x:T):C}"),
    ("SDoc", "enum A{B ", " C}"),
    ("SDoc", "input A{", " b:C}"),
    ("SDoc", "", " directive@d on FIELD"),
    ("SDoc", "", " union A=B"),
]

DEEP_TEXT_HOLES = [
    ("SDoc", "", " scalar A"),
    ("SDoc", "", " interface A{b:C}"),
    ("SDoc", "", " enum A{B}"),
    ("SDoc", "", " input A{b:C}"),
    ("SDoc", "interface A{b:C ", " d:E}"),
    ("SDoc", "extend type A{", " d:E}"),
    ("SDoc", "extend interface A{b(", " d:E):F}"),
    ("SDoc", "extend input A{", " d:E}"),
    ("SDoc", "extend enum A{", " B}"),
    ("SDoc", "directive@d(", " d:E)on FIELD"),
]


def wide_objects(r, sizes):
    """objects of many different keys, out of order and some of them repeated"""
    res = []
    for n in sizes:
        for kind, p, q in (("QDoc", "{a(x:{", "})b}"), ("QDoc", "query($v:T={", "}){a}"), ("SDoc", "type A{b(c:D={", "}):E}"), ("SDoc", "scalar A@d(x:[{", "}])"), ("QDoc", "{a@d(x:{k:{", "}})}")):
            ks = ["%s%d" % (r.choice("abzZ_"), k) for k in range(n)]
            r.shuffle(ks)
            ks += [r.choice(ks) for _ in range(n // 8)]
            res.append((kind, p + " ".join("%s:%s" % (k, r.choice(["1", "a", "[]", "{}", '"s"', "null", "2.5", "[1 2]", "{k:1}"])) for k in ks) + q))
    return res


FILLERS = [" ", "\t", "\n", "\r", ",", "\ufeff", "#"]

# one token of every kind, and pieces of tokens
LEXEMES = ["a", "on", "1", "-2", "1.5", "2e3", '"s"', '""', '"""b"""', "{", "}", "(", ")", "[", "]", "!", "$", "&", "|",
           ":", "=", "@", "..."]
SOUP = list("aeu01-+.\"\\#{}([,@ \n") + ["é"]


def chars_interesting():
    """code points around every boundary the lexical grammar or UTF-8 knows"""
    cs = set(range(0, 0x300))
    for b in (0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0x1680, 0x180e, 0x2000, 0x2028, 0x202f, 0x205f, 0x2060, 0x3000,
              0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xff10, 0xff21, 0x0660, 0x0966, 0x2160, 0x212a,
              0x1d7ce):
        for d in range(-16, 17):
            c = b + d
            if 0 <= c <= 0x10ffff and not 0xd800 <= c <= 0xdfff:
                cs.add(c)
    return sorted(cs)


STYLES = [(2, False), (2, True), (4, False), (4, True), (0, False), (0, True), (1, False), (1, True), (3, True), (7, False),
          (8, True), (17, False), (40, True)]


def style(ck):
    i, m = ck.rng.choice(STYLES)
    return [i, m]


# ------------------------------------------------------------------ nesting
def nest(rng, kind, depth, mix=True):
    """a text whose brackets nest exactly `depth` deep, otherwise valid; None if this shape cannot"""
    if kind == "QDoc":
        shape = rng.choice(["sel", "inline", "list", "obj", "both", "type", "dirlist", "mix"])
        if shape == "sel":
            return "{a" * (depth - 1) + "{b}" + "}" * (depth - 1)
        if shape == "inline":
            return "{a ...on T@d" * (depth - 1) + "{b}" + "}" * (depth - 1)
        if shape == "list":
            return "{a(x:" + "[" * (depth - 2) + "1" + "]" * (depth - 2) + ")}" if depth >= 3 else None
        if shape == "obj":
            return "{a(x:" + "{k:" * (depth - 2) + "1" + "}" * (depth - 2) + ")}" if depth >= 3 else None
        if shape == "both":
            n = depth - 2
            o = "".join("[" if i % 2 else "{k:" for i in range(n))
            c = "".join("]" if i % 2 else "}" for i in reversed(range(n)))
            return "{a(x:" + o + "1" + c + ")}" if depth >= 3 else None
        if shape == "type":
            return "query($v:" + "[" * (depth - 1) + "T" + "]!" * (depth - 1) + "){a}" if depth >= 2 else None
        if shape == "dirlist":
            k = rng.randrange(1, depth - 3) if depth > 5 else 1
            n = depth - k - 1
            if n < 0:
                return None
            return "{a" * k + " @d(x:" + "[" * n + "1" + "]" * n + ")" + "}" * k
        # fields, arguments and values in turn
        k = rng.randrange(1, max(2, depth - 2))
        n = depth - k - 1
        if n < 0:
            return None
        val = "".join(rng.choice(["[", "{k:"]) for _ in range(n))
        close = "".join("]" if c == "[" else "}" for c in reversed([x for x in val if x in "[{"]))
        return ("query q" + "{b(z:[1])@e(y:{k:[]}) c" * (k - 1) + "{a(x:" + val + "$v" + close + "){b}" + "}" * k)
    shape = rng.choice(["type", "default", "dir", "argtype", "obj"])
    if shape == "type":
        return "type A{f:" + "[" * (depth - 1) + "T" + "]" * (depth - 1) + "}" if depth >= 2 else None
    if shape == "default":
        return "input A{f:T=" + "[" * (depth - 1) + "1" + "]" * (depth - 1) + "}" if depth >= 2 else None
    if shape == "obj":
        return "input A{f:T=" + "{k:" * (depth - 1) + "1" + "}" * (depth - 1) + "}" if depth >= 2 else None
    if shape == "dir":
        return "scalar A@d(x:" + "[" * (depth - 1) + "1" + "]" * (depth - 1) + ")" if depth >= 2 else None
    return "type A{f(x:" + "[" * (depth - 2) + "T" + "]!" * (depth - 2) + "):U}" if depth >= 3 else None


HIDDEN = ["}", "]", ")", "{", "[", "(", "}])", "{[(", "}{", "]}]}]}"]


def hide(rng, s):
    """the same nesting, with brackets hidden in strings and comments (plain values in s are written 1)"""
    def hidden():
        return rng.choice(HIDDEN) * rng.choice([1, 5, 20])
    parts = s.split("1")
    out = [parts[0]]
    for p in parts[1:]:
        k = rng.random()
        v = "1" if k < 0.2 else '"%s"' % hidden() if k < 0.5 else '"a\\"%s"' % hidden() if k < 0.6 else '"""%s\n%s"""' % (hidden(), hidden())
        out.append(v + p)
    s = "".join(out)
    if rng.random() < 0.6:
        s = "# %s\n" % hidden() + s
    if rng.random() < 0.5:
        i = s.find(" ")
        if i > 0 and not any(c in s[:i] for c in '"#'):
            s = s[:i] + "# %s\n" % hidden() + s[i:]
    return s


def siblings(rng, kind, n):
    """something shallow that opens and closes many brackets"""
    if kind == "QDoc":
        return rng.choice(["{" + "a(x:[{k:[1]}])@d(y:{}){b} " * n + "}", "{a(x:[" + "[{k:[]}]" * n + "])}", "query q{a{b(c:[])}} " * n,
                           "query(" + "$v:[[T]!]={a:[]} " * n + "){a}", "fragment f on T{...{a}} " * n,
                           "{" + "...{a}" * n + "}"])
    return rng.choice(["type A{f(x:[T]=[{}]):[[T]]} " * n, "type A{" + "f(x:[T]={k:[]}):[[T]] " * n + "}", "enum A{" + "B@d(x:[[]]) " * n + "}",
                       "input A@d(x:[{}]){" + "f:[T]=[[]] " * n + "}", "schema{query:A} " * n,
                       "directive@d(" + "a:[T]=[] " * n + ")on FIELD"])


# ------------------------------------------------- the same text in two places
# every kind of definition with everything it can have; ? is a place for a name (in quotes: for a text)
EVERYTHING = {
    "QDoc": ["query ?($?:[?!]!=[? {?:? ?:\"?\"}] $?:?=?)@?(?:?){?:?(?:$? ?:\"?\")@?{...?@? ...on ? @?{?}}}", "mutation ?($?:?=\"?\")@?@?{?{?:?}...@?(?:$?){?}}", "subscription ?{?(?:[? $?] ?:{?:? ?:$?})}",
             "fragment ? on ? @?(?:?)@?{? ?:? ...?}", "{?:?{?:?{? ?}} ?:? ... on ?{? ...?}}", "query ?{?}query ?{?}fragment ? on ?{?}fragment ? on ?{?}{?}"],
    "SDoc": ['"?"type ? implements ?&? @?(?:?){"?"?("?"?:[?]=? @?):?! @? ?:?}', '"?"interface ? implements ?&? @?(?:"?"){"?"?(?:?={?:?}):[?]@? ?:?}', '"?"union ? @?(?:?)@?=?|?|?', '"?"enum ? @?(?:[?]){"?"? @? ?}',
             '"?"input ? @?(?:?){"?"?:?=? @? ?:?!}', '"?"scalar ? @?(?:{?:?})@?', '"?"directive@?("?"?:?=? @? ?:[?])on FIELD', "schema@?(?:?)@?{query:? mutation:? subscription:?}",
             "extend type ? implements ?&? @?{?(?:?=?):? @?}", "extend interface ? implements ?&? @?(?:?){?:?}", "extend union ? @?=?|?", "extend enum ? @?{? @? ?}", "extend input ? @?{?:?=? @?}", "extend scalar ? @?(?:?)@?",
             "type ?{?:?}type ?{?:?}extend type ?@?{?:?}scalar ? enum ?{?}", 'interface ?{?:?}type ? implements ?{?:?}union ?=?|? input ?{?:?}directive@? on FIELD schema{query:?}']}


def coincidences(r, kind, most=None, words=("a", "Foo", "_x")):
    """texts in which two places hold the same name, and all others different ones"""
    res = []
    for t in EVERYTHING[kind]:
        parts = t.split("?")
        n = len(parts) - 1
        for i in range(n):
            for j in range(i + 1, n):
                w = r.choice(words)
                res.append("".join(p + (w if k in (i, j) else "n%d" % k) for k, p in enumerate(parts[:-1])) + parts[-1])
    if most and len(res) > most:
        res = r.sample(res, most)
    return res
