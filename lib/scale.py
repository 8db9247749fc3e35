"""Large inputs whose meaning follows from small ones the specification has decided.

A giant is a concatenation of documents, each decided by TLC on its own; that concatenating shifts positions and
changes nothing else is checked on the specification itself for small groups (check C24).  A stretched text has one
lexeme with a unit repeated n times; what it means follows from the same text with the unit repeated 3 and 4 times,
both decided by TLC (the step from 3 to 4 is repeated n - 3 times, and 3 to 4 itself is checked to be such a step).
"""
import gen, inputs, model
from engine import Case, POS, ok

END = {"QDoc": "{zz}", "SDoc": "enum ZZ{Z}"}


def move(x, f):
    """the tree with f applied to its positions"""
    if isinstance(x, list) and x:
        h = x[0]
        if isinstance(h, int):
            return x
        if isinstance(h, str) and h in POS:
            y = [h, f(x[1])] + ([f(x[2])] if h == "sel" else [])
            return y + [move(e, f) for e in x[len(y):]]
        return [move(e, f) for e in x]
    return x


def joined(texts, sep):
    """printed or minified parts, one after another"""
    res = []
    for t in texts:
        if res and t:
            if sep == "\n":
                res.append(10)
            elif chr(res[-1]) not in "!$():=@[]{|}&." and chr(t[0]) not in "!$():=@[]{|}&.":
                res.append(32)
        res.extend(t)
    return res


def pads(r, size):
    """ignorable text, and how it moves a position at the start of a line"""
    k = r.randrange(6)
    n = r.choice([1, 3, 255, 256, size])
    if k == 0:
        return "\n" * n, (n, 0)
    if k == 1:
        return " " * n, (0, n)
    if k == 2:
        return "#" + r.choice("x}\"{") * n + "\n", (1, 0)
    if k == 3:
        return "," * n, (0, n)
    if k == 4:
        return "\ufeff" * n, (0, 0)
    return "# x\n" * min(n, 9000), (min(n, 9000), 0)


def giants(ck, kind, n, style=(2, False), bad=False, pool=None, most=80000):
    """n large texts with requests parse, print, minify; with bad, every second one ends in something wrong"""
    r = ck.rng
    style = list(style)
    docs = inputs.documents(ck, kind, pool or (40 if ck.quick else 200), sizes=(3, 8, 15, 30), wild=0.5, maxrep=2)
    req = [["parse", kind], ["print"] + style, ["minify"]]
    parts = ck.expect([Case(s + "\n" + END[kind], req) for s in docs])
    parts = [c for c in parts if ok(c.exp[0])]
    faults = []
    if bad:
        faults = ck.expect([Case(s, [["parse", kind], ["minify"]]) for s in
                            inputs.documents(ck, kind, 40, wild=0.5, p_tok=1.0, bad=0.05)])
        faults = [c for c in faults if not ok(c.exp[0]) and c.exp[1] != ["ok", []]]
    res = []
    for i in range(n):
        size = r.choice([4000, 4096, 5000, 33000, 66000])
        want = r.choice([most // 25, most // 12, most // 2, most])
        text, defs, printed, mini, used = [], [], [], [], []
        length, line, col = 0, 1, 1
        padded = 0
        while length < want:
            c = r.choice(parts)
            if padded < 3 and r.random() < 0.1:
                padded += 1
                p, (dl, dc) = pads(r, size)
                text.append(p)
                length += len(p)
                line, col = line + dl, (1 + dc if dl == 0 else 1)

            def f(pos, line=line, col=col):
                return [pos[0] + line - 1, pos[1] + (col - 1 if pos[0] == 1 else 0)]
            part = move(c.exp[0][1], f)
            text.append(c.src + "\n")
            length += len(c.src) + 1
            defs += part
            used.append(c)
            printed.append(c.exp[1][1])
            mini.append(c.exp[2][1])
            line, col = part[-1][1][0] if kind == "SDoc" else part[-1][1][1][0], 1
            line += 1
        if bad and faults and i % 2:
            c = r.choice(faults)
            pos = c.exp[0][1]
            res.append(Case("".join(text) + c.src, [["parse", kind]], [["err", [pos[0] + line - 1, pos[1]], c.exp[0][2]]], tag="bad"))
        else:
            res.append(Case("".join(text), req, [["ok", defs], ["text", joined(printed, "\n")], ["ok", joined(mini, " ")]], tag=used))
    return res


STRETCH = {
    "QDoc": [("{", "q", " b:c}", "col"), ("{b q", "q", ":c(d:1)@e{f}}", "col"), ("{a(q", "q", ":1)@d{e}}", "col"), ("query q", "q", "($v:T){a}", "col"),
             ("{...q", "q", "@d}", "col"), ("{a(x:$q", "q", ")b}", "col"), ('{a(x:"', "q", '")b}', "col"), ('{a(x:"', "\\n", '")b}', "col"), ('{a(x:"', "\u00e9", '")b}', "col"),
             ('{a(x:"', "\\u00e9", '")b}', "col"), ('{a(x:"""', "q", '""")b}', "col"), ('{a(x:"""', "\u00e9", '""")b}', "col"), ('{a(x:"""x', "\nqq", '""")b}', "line"),
             ('{a(x:"""x', "\n\n", '\ny""")b}', "line"), ('{a(x:"""x', "\n  q", '\n  y""")b}', "line"), ('{a(x:"""', ' \\"""', ' """)b}', "col"), ("{a(x:[", "1,", "2])b}", "col"), ("{a(x:[", '"q"', "])b}", "col"),
             ("{a", "@d", "{b}}", "col"), ("{", "a,", "}", "col"), ("{", "a{b}", "c}", "col"), ("{", "...{b}", "}", "col"), ("", "{a}", "{b}", "col"), ("", "query q@d{a}\n", "{b}", "line"),
             ("{a(", "x:1 ", ")b}", "col"), ("query(", "$v:[T]=[] ", ")@d{a}", "col"), ("query($v:T=", "1", " $w:T){a}", None), ("{a(x:1.", "0", "1)b}", None),
             ("{a ", " ", "b}", "col"), ("{a ", "\t", "b}", "tab"), ("{a ", "\n", "b}", "line"), ("{a ", "\r\n", "b}", "line"), ("{a #", "q", "\nb}", "none"), ("{a ", "#\n", "b}", "line"), ("{a ", "\ufeff", "b}", "none"), ("{a ", "\r", "b}", "none"),
             ('{a(x:"', "q", '\\n")b}', "col"), ('{a(x:"', "q", '\\u00e9\\\\")b}', "col"), ('{a(x:"\\t', "q", '")b}', "col"), ('{a(x:"\u00e9', "q", '\\"")b}', "col"),
             ('{a(x:"""', "q", ' \\""" """)b}', "col"), ('{a(x:"""\n  ', "q", '\n y""")b}', "none"),
             ("{a", ",", "b}", "col"), ("{a", ", ", "b}", "col"), ("{a", ",\n", "b}", "line"), ("{a", " #q,\n", "b}", "line"), ("{a(x:1", ",", "y:2)}", "col"), ("", " ", "{a}", "col"), ("", "\n", "{a}", "line"), ("{a}", ",", "{b}", "col")],
    "SDoc": [("type q", "q", "{b:C}", "col"), ('"', "q", '"type A{b:C}', "col"), ('"""', "q", '"""type A{b:C}', "col"), ('"""x', "\nq", '"""type A{b:C}', "line"), ("type A{b(c:", "q", "):D e:F}", "col"),
             ("type A implements B", "&q", "{c:D}", "col"), ("union A=B", "|q", " scalar C", "col"), ("enum A{", "q,", "B}", "col"), ("type A{", "q:C ", "d:E}", "col"), ("type A{q(", "q:C ", "):E f:G}", "col"),
             ("input A{", "q:C=[] ", "d:E}", "col"), ("scalar A", "@d", " scalar B", "col"), ("", "scalar A ", "scalar B", "col"), ("directive@d on FIELD", "|QUERY", " scalar A", "col"), ("type A", "#q\n", "{b:C}", "line"),
             ("schema", "@d", "{query:A}", "col"), ("type A{b:C ", " ", "d:E}", "col"), ('type A{"""x', "\n", 'q"""b:C d:E}', "line"), ("", "extend type A{b:C}", "scalar A", "col"),
             ('"', "q", '\\n"type A{b:C}', "col"), ('"', "\\u0041", 'q"type A{b:C}', "col"), ("type A", ",", "{b:C}", "col"), ("type A{b:C", "\n", "d:E}", "line"), ("type A{b:C", ",\r\n", "d:E}", "line"), ("type A{b:C ", "\ufeff", "d:E}", "none"), ("scalar A", " ", "scalar B", "col")],
}


# lists of different items, out of order and some of them repeated: sorting them, leaving out repeated ones or
# putting those of one kind first would be seen
VALUES = '3 1 z "q" [] {k:1} a 1 true null 2.5 '
INPUTS = 'z:T "d"b:[T]!=1 a:T@e z:T '
FIELDS = 'z:[C!] "d"b(x:T=1 w:U):C! a:C@e z:C '
DIRS = "@z @b(x:1 w:2) @a @b "
MIXED = {
    "QDoc": [("{", "z b:a ...y@e ...on T{x} ...@d{w} c(k:1 j:2) b:a a{b} ", "}"), ("{a(", 'z:1 b:$v a:[] b:{} c:"q" z:1.5 ', ")}"), ("{a@d(", "z:1 b:$v a:[] b:{} ", ")b}"),
             ("{a(x:[", VALUES + "$v ", "])}"), ("query($v:T=[", VALUES, "]){a}"), ("{a ", DIRS, "{c}}"), ("{a{b} ...q ", DIRS, "}"), ("{...on T", DIRS, "{b}}"), ("fragment f on T ", DIRS, "{a}"),
             ("query q ", DIRS, "{a}"), ("mutation ", DIRS, "{a}"), ("query(", "$z:T $b:[T]! $a:T=1 $b:T! ", "){a}"), ("mutation m(", "$z:T $b:[T]! $a:T=1 $b:T! ", "){a}"),
             ("subscription m(", "$z:T $b:[T]! $a:T=1 $b:T! ", "){a}"), ("fragment f on T{", "z b:a ...y@e ...on T{x} b:a ", "}"), ("{a{...{", "z b:a ...y@e ...on T{x} b:a ", "}}}"),
             ("", "{b} query z{a} fragment f on T{x} mutation{c} {b} subscription a($v:T){b} ", "{b}")],
    "SDoc": [("type A{", FIELDS, "d:E}"), ("interface A{", FIELDS, "d:E}"), ("extend type A{", FIELDS, "}"), ("extend interface A{", FIELDS, "}"), ("type A{f(", INPUTS, "):U}"), ("directive@d(", INPUTS, ")on FIELD"),
             ("input A{", INPUTS, "}"), ("extend input A{", INPUTS, "}"), ("enum A{", 'Z B@e "d"A B ', "}"), ("extend enum A{", 'Z B@e "d"A B ', "}"), ("union A=", "Z|B|A|B|", "C"), ("extend union A=", "Z|B|A|B|", "C"),
             ("type A implements ", "Z&B&A&B&", "C{d:E}"), ("interface A implements ", "Z&B&A&B&", "C{d:E}"), ("extend type A implements ", "Z&B&A&B&", "C"), ("extend interface A implements ", "Z&B&A&B&", "C"),
             ("directive@d on ", "SCALAR|QUERY|FIELD|QUERY|", "ENUM"), ("scalar A", DIRS, ""), ("type A", DIRS, "{b:C}"), ("type A{b:C ", DIRS, "}"), ("enum A{B", DIRS, "}"), ("input A{b:C", DIRS, "}"),
             ("schema ", DIRS, "{query:Q}"), ("extend scalar A", DIRS, ""), ("union A ", DIRS, "=B"), ("input A{b:C=[", VALUES, "]}"), ("scalar A@d(x:[", VALUES, "])"), ("scalar A@d(", "z:1 b:[] a:{} b:2 ", ")"),
             ("", 'scalar Z type B{c:D} "d"enum A{B} extend scalar C@e scalar B union U=B directive@d on FIELD interface I input A{b:C} ', "scalar A")],
}
for _k in MIXED:
    STRETCH[_k] = STRETCH[_k] + [t + ("col",) for t in MIXED[_k]]


def some_counts(r, quick):
    """how often to repeat a unit: around the sizes programs care about, and anything in between"""
    c = [r.randrange(5, 60), r.choice([63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 512, 999, 1000, 1024, 1025])]
    big = [2047, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10001]
    if quick:
        return c + [r.choice([1100, 1500] + big)] + ([r.choice([32768, 33000, 65535, 65536, 65537, 70000])] if r.random() < 0.12 else [])
    return c + [r.randrange(60, 3000), r.choice(big), r.choice([32767, 32768, 65535, 65536, 70000])]


def stretched(ck, kind, only=None, style=None):
    """texts with a lexeme or list of any length; requests parse, minify and, with a style, print; only: a condition on templates"""
    temps = [t for t in STRETCH[kind] if t[3] is not None and (only is None or only(t))]
    base = []
    req = [["parse", kind], ["minify"]] + ([["print"] + list(style)] if style else [])
    for p, u, q, how in temps:
        base.append([Case(p + u * k + q, req) for k in (3, 4)])
    ck.expect([c for b in base for c in b])
    res = []
    for (p, u, q, how), (b3, b4) in zip(temps, base):
        if not ok(b3.exp[0]) or not ok(b4.exp[0]):
            raise model.ModelError("stretch: %r" % b3.src)
        for n in some_counts(ck.rng, ck.quick):
            if n * len(u) > (600000 if len(u) < 12 else 60000):
                continue
            exp = [step(x, y, n - 3) for x, y in zip(b3.exp, b4.exp)]
            if None in exp[:2] or (style and exp[2] is None and only is not None):
                raise model.ModelError("stretch: no step from 3 to 4 of %r" % b3.src)
            if None not in exp:
                res.append(Case(p + u * n + q, req, exp, tag=b3.src))
    return res


def step(a, b, k):
    """a, and then k times what leads from a to b; None if this is no such thing"""
    if a == b:
        return a
    if isinstance(a, int) and isinstance(b, int):
        return a + k * (b - a)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == len(b):
            if a and all(isinstance(x, int) for x in a) and not (len(a) == 2 and a[0] >= 1):
                return None
            r = [step(x, y, k) for x, y in zip(a, b)]
            return None if any(x is None for x in r) else r
        d = len(b) - len(a)
        if d <= 0:
            return None
        # a = h m t, b = h m m t with |m| = d, items of m up to positions
        from engine import strip
        if all(isinstance(x, int) for x in a) and all(isinstance(x, int) for x in b):
            h = 0
            while h < len(a) and a[h] == b[h]:
                h += 1
            start = max(0, h - d)
            for s in range(start, h + 1):
                m = b[s:s + d]
                if a[:s] + m + a[s:] == b and a[s:s + d] == m:
                    return a[:s] + m * (k + 1) + a[s + d:]
            return None
        # a list of nodes: the last item of the repeated ones comes again, moved on
        sa, sb = [strip(x) for x in a], [strip(x) for x in b]
        for s in range(len(a)):
            if sa[:s] + sa[s:s + d] + sa[s:] == sb and len(a) >= s + 2 * d and sa[s:s + d] == sa[s + d:s + 2 * d]:
                out = a[:s]
                for j in range(d):
                    for_one = [a[s + j], a[s + d + j]]
                    out.append(for_one)
                items = out[s:]
                out = out[:s]
                reps = 1
                while len(a) >= s + (reps + 1) * d and sa[s:s + d] == sa[s + reps * d:s + (reps + 1) * d]:
                    reps += 1
                for i in range(reps + k):
                    for x, y in items:
                        out.append(step(x, y, i))
                if any(x is None for x in out):
                    return None
                tail, tailb = a[s + reps * d:], b[s + (reps + 1) * d:]
                t = [step(x, y, k) for x, y in zip(tail, tailb)]
                return None if any(x is None for x in t) else out + t
        return None
    return None
