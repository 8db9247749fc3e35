"""Seeded generation of texts from the grammar exported by the specification.

Everything here only proposes inputs.  What they mean is decided by TLC on the specification.
"""
import random

NAMES = ["a", "b", "id", "x1", "_", "_a9", "Foo", "Bar", "Ab_c", "name", "Z", "longFieldName", "aB", "s2"]
NEAR_KEYWORDS = ["onn", "On", "ON", "on_", "on1", "o", "trueX", "True", "TRUE", "tru", "truee", "falsey", "False",
                 "nullable", "Null", "NULL", "nul", "queryX", "Query", "QUERY", "quer", "mutations", "Mutation",
                 "subscriptionX", "fragments", "Fragment", "schemas", "scalarX", "types", "Type", "typ", "interfaces",
                 "unions", "enums", "inputs", "directives", "extends", "Extend", "implement", "implementsX",
                 "repeatableX", "__typename", "__schema", "_on", "FIELD", "QUERY", "e1", "E", "e", "x0", "a9_",
                 "averyveryveryverylongname_withdigits0123456789_and_more"]
KEYWORD_NAMES = ["query", "mutation", "subscription", "fragment", "on", "true", "false", "null", "schema",
                 "scalar", "type", "interface", "union", "enum", "input", "directive", "extend", "implements",
                 "repeatable"]
LOCATIONS = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD",
             "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION",
             "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION",
             "VARIABLE_DEFINITION"]
INTS = ["0", "-0", "1", "7", "-1", "42", "10", "100", "-90", "2147483647", "-2147483648", "2147483648",
        "9007199254740993", "9223372036854775807", "-9223372036854775808", "999999999999999999"]
BAD_INTS = ["9223372036854775808", "-9223372036854775809", "10000000000000000000", "99999999999999999999999"]
FLOATS = ["0.0", "-0.0", "1.5", "-2.25", "0.1", "1e3", "1E3", "1e-3", "1.0e+2", "1.5E9", "12.50", "3.14159",
          "1e9", "9e9", "1e21", "1e22", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308",
          "123456789012345678.0", "0.30000000000000004", "4.35", "1e16", "1e17", "9223372036854775808.0",
          "9223372036854775807.0", "1e19", "-1e19", "-9223372036854775808.0", "2.5e-5", "1e300", "1e-07",
          "100000000000000000000.5", "0e5", "-0e1", "0.000001", "3e-400", "247473626.49747E+010",
          "2474736264974700032.0", "1.8014398509481985e16", "9007199254740994.0", "9007199254740993.0",
          "9007199254740992.0", "-9007199254740992.0", "-18014398509481988.0", "-4.611686018427388e18",
          "9007199254740991.0", "4503599627370496.5"]
BAD_FLOATS = ["1e309", "-1e309", "1.8e308", "1e400", "1e99999999999"]
# what the GraphQL specification and its users give these names and shapes to
WELL_KNOWN = ["Query", "Mutation", "Subscription", "__typename", "__schema", "__type", "__Schema", "__Type", "__Field", "ID", "Int", "Float", "String", "Boolean",
              "deprecated", "skip", "include", "specifiedBy", "oneOf", "defer", "stream", "client", "connection", "if", "reason", "url", "label", "name", "id", "Node", "node",
              "edges", "pageInfo", "cursor", "first", "after", "input", "DateTime", "JSON", "key", "fields", "kind", "ofType", "description", "args", "defaultValue"]
IDIOMS = {k: [x.split() for x in v] for k, v in {
    "Directive": ["@ deprecated", '@ deprecated ( reason : "No_longer_supported" )', '@ deprecated ( reason : "" )', "@ skip ( if : true )", "@ skip ( if : false )", "@ skip ( if : $ x )",
                  "@ include ( if : true )", "@ include ( if : false )", "@ include ( if : $ x )", '@ specifiedBy ( url : "https://x.y/z#a" )', "@ oneOf", "@ defer", '@ defer ( label : "l" if : true )',
                  "@ stream ( initialCount : 0 )", "@ client", '@ key ( fields : "id" )', "@ skip", "@ include ( if : null )", "@ deprecated ( reason : null )"],
    "Selection": ["__typename", "__typename", "t : __typename", "__schema { types { name } }", '__type ( name : "A" ) { name }', "id", "... on Node { id }", "node { id __typename }", "id : id", "... { id }", "name : name"],
    "NamedType": ["Int", "Float", "String", "Boolean", "ID", "Query"],
    "FieldDef": ["id : ID !", "_ : Boolean", "__typename : String !", "name : String", '"""d""" id : ID !', "node ( id : ID ! ) : Node", "a ( first : Int = 10 after : String = null ) : [ Int ! ] !"],
    "Variable": ["$ id : ID !", "$ a : Int = 1", '$ a : Int = "1"', "$ a : Int = { k : 1 }", "$ a : String = 1", '$ a : String = ""', "$ a : Boolean = true", "$ a : Boolean = 1", "$ a : ID = 1", "$ a : Float = 1",
                 "$ a : [ Int ] = 1", "$ a : Int = null", "$ a : Int = [ ]", "$ a : Float = 1.0"],
    "InputValue": ["if : Boolean !", "a : Int = 1", 'a : Int = "1"', "a : Int = { k : 1 }", "a : String = 1", 'reason : String = "No_longer_supported"', "a : Boolean = 1", "a : ID = 1", "a : Float = 1", "a : [ Int ] = 1",
                   "a : Int = null", "a : Int = [ ]"],
    "Schema": ["schema { query : Query }", "schema { query : Query mutation : Mutation }", "schema { query : Query mutation : Mutation subscription : Subscription }", "schema { mutation : Mutation query : Query }",
               "schema { query : Mutation mutation : Query }", "schema { query : Q }", "schema { query : Query subscription : Mutation }", "schema { }", "schema @ d { query : Query }"],
    "Object": ["type Query { a : B }", "type Query", "type Mutation { a : B }", "type Subscription { a : B }", "type __Schema { a : B }", "type Query implements Node"],
    "Scalar": ["scalar Int", "scalar ID", "scalar String", "scalar Float", "scalar Boolean", "scalar DateTime", 'scalar DateTime @ specifiedBy ( url : "https://x.y/z#a" )'],
    "ObjectX": ["type Query { a : B }", "type Mutation @ d", "type Query implements Node"],
    "Interface": ["interface Node { id : ID ! }"],
    "Input": ["input A @ oneOf { a : Int b : String }"],
    "DirectiveDef": ["directive @ skip ( if : Boolean ! ) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT", "directive @ include ( if : Boolean ! ) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT",
                     'directive @ deprecated ( reason : String = "No_longer_supported" ) on FIELD_DEFINITION | ARGUMENT_DEFINITION | INPUT_FIELD_DEFINITION | ENUM_VALUE',
                     "directive @ specifiedBy ( url : String ! ) on SCALAR", "directive @ oneOf on INPUT_OBJECT"],
    "Inline": ["on Query { a }", "{ __typename }", "on A { __typename }"],
    "Spread": ["TypeRef", "FullType @ include ( if : true )"],
}.items()}
IDIOMS = {k: [[t.replace("No_longer_supported", "No longer supported") for t in x] for x in v] for k, v in IDIOMS.items()}
# where a list of them stands
IDIOM_LISTS = {
    "QDoc": [("{a", "Directive", "}"), ("{...f", "Directive", "}"), ("{...", "Directive", "{b}}"), ("{...on T", "Directive", "{b}}"), ("query q", "Directive", "{b}"), ("fragment f on T", "Directive", "{b}"),
             ("{", "Selection", "}"), ("{a{b ", "Selection", "}c}"), ("query(", "Variable", "){a}"), ("query q($a:", "NamedType", "=1){a}"), ("{...", "Inline", "}"), ("{...", "Spread", "}")],
    "SDoc": [("type A{b:C", "Directive", "}"), ("enum A{B", "Directive", "}"), ("input A{b:C", "Directive", "}"), ("scalar A", "Directive", ""), ("type A{b(c:D", "Directive", "):E}"), ("type A", "Directive", "{b:C}"),
             ("extend scalar A", "Directive", ""), ("type A{", "FieldDef", "}"), ("type A{b(", "InputValue", "):C}"), ("input A{", "InputValue", "}"), ("directive@d(", "InputValue", ")on FIELD"),
             ("interface A{", "FieldDef", "}"), ("", "Schema Object Scalar Interface Input DirectiveDef", ""), ("extend ", "ObjectX", ""), ("type A{b:", "NamedType", "}"), ("input A{b:", "NamedType", "=1}")]}
UNI = ["é", "ß", "—", "日", "本", "😀", "\u00a0", "\u2003", "\u200b", "\u2028", "\ufeff", "\U0010ffff", "\u0085",
       "\u007f", "\ufffd", "\u3000"]


gen_reserved = ("true", "false", "null", "on")


class Gen:
    def __init__(self, prod, rng):
        self.prod = prod
        self.rng = rng
        self.budget = 0
        self.bad = 0.0          # chance of a literal or name that is wrong in meaning
        self.wild = 0.25        # chance of unusual names and strings
        self.maxrep = 3
        self.echo = 0.12        # chance that an item of a list is one that was there before
        self.known = 0.06       # chance that a construct is one everybody writes
        self.few = None         # few names, so that they meet again
        self.cost = {}
        self._costs()

    # least number of tokens below each nonterminal, to get out of recursion
    def _costs(self):
        inf = 10 ** 6
        cost = {n: inf for n in self.prod}
        changed = True
        while changed:
            changed = False
            for n, p in self.prod.items():
                if p["k"] == "alt":
                    c = min(cost[m] for m in p["x"])
                else:
                    c = 0
                    for it in p["x"]:
                        if it[0] in ("t", "v"):
                            c += 1
                        elif it[0] in ("n", "+", "s"):
                            c += cost[it[1]]
                c = min(c, inf)
                if c < cost[n]:
                    cost[n] = c
                    changed = True
        self.cost = cost

    # ------------------------------------------------------------ lexemes
    def name(self, notfirst=()):
        r = self.rng
        while True:
            if self.few and r.random() < 0.7:
                n = r.choice(self.few)
            elif r.random() < self.wild:
                k = r.random()
                n = r.choice(KEYWORD_NAMES) if k < 0.4 else r.choice(NEAR_KEYWORDS) if k < 0.65 else r.choice(WELL_KNOWN) if k < 0.8 else self.randname()
            else:
                n = r.choice(NAMES)
            if n not in notfirst:
                return n

    def randname(self):
        r = self.rng
        first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
        return r.choice(first) + "".join(r.choice(first + "0123456789") for _ in range(r.randrange(0, 6)))

    def integer(self):
        r = self.rng
        if r.random() < self.bad:
            return r.choice(BAD_INTS)
        if r.random() < 0.5:
            return r.choice(INTS)
        return str(r.randrange(-10 ** r.randrange(1, 18), 10 ** r.randrange(1, 18)))

    def floating(self):
        r = self.rng
        if r.random() < self.bad:
            return r.choice(BAD_FLOATS)
        if r.random() < 0.6:
            return r.choice(FLOATS)
        s = str(r.randrange(-10 ** r.randrange(1, 12), 10 ** r.randrange(1, 12)))
        if r.random() < 0.7:
            s += "." + "".join(r.choice("0123456789") for _ in range(r.randrange(1, 8)))
            if r.random() < 0.4:
                return s
        return s + r.choice("eE") + r.choice(["+0", "-0", "+", "-", ""]) + str(r.randrange(1, 250))

    def plain_text(self, n):
        """some string content, not yet quoted"""
        r = self.rng
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.55:
                out.append(r.choice("abcxyz ABC.,#{}()[]:!$&|=@-'0123 "))
            elif k < 0.65:
                out.append(r.choice(UNI))
            elif k < 0.75:
                out.append(r.choice(['"', '"', '\\', '"""', '\\"', "'"]))
            elif k < 0.9:
                out.append(r.choice(["\n", "\n", "\n  ", "\n\n", "\n ", "  ", "\t", "\n\t"]))
            elif k < 0.95:
                out.append(r.choice(["\r\n", "\r", "\r\n ", "\x00", "\x07", "\x08", "\x0b", "\x0c", "\x1b", "\x1f"]))
            else:
                out.append(chr(r.choice([r.randrange(32, 127), r.randrange(0xa0, 0xd7ff), r.randrange(0xe000, 0xfffe),
                                         r.randrange(0x10000, 0x10ffff)])))
        return "".join(out)

    def quoted(self):
        r = self.rng
        if r.random() < 0.15:
            return '"%s"' % (r.choice(self.few) if self.few and r.random() < 0.7 else r.choice(NAMES + ["true", "null", "1", "1.0", "-", "$a", "on", "@d", "No longer supported", "https://x.y", "[]", "{}"]))
        if r.random() > self.wild * 2:
            return r.choice(['""', '"x"', '"hello world"', '"a, b"', '"# no comment"', '"{"', '"é"', '"\\n"'])
        out = ['"']
        for _ in range(r.randrange(0, 8)):
            k = r.random()
            if k < 0.5:
                c = self.plain_text(1)
                out.append(c.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n"))
            elif k < 0.8:
                out.append("\\" + r.choice(['"', "\\", "/", "b", "f", "n", "r", "t"]))
            elif k < 0.97 or r.random() > self.bad * 4:
                cp = r.choice([r.randrange(0, 0x80), r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x10000)])
                h = "%04x" % cp
                out.append("\\u" + (h.upper() if r.random() < 0.5 else h))
            else:
                out.append(r.choice(["\\x", "\\u12", "\\uD800", "\\uZZZZ", "\\u+123", "\\u{41}", "\\0", "\\a", "\\'"]))
        out.append('"')
        return "".join(out)

    def block(self):
        r = self.rng
        if self.few and r.random() < 0.1:
            return '"""%s"""' % r.choice(self.few)
        if r.random() > self.wild * 2:
            return r.choice(['""""""', '"""x"""', '"""\n  two\n  lines\n"""', '""" "quoted" """', '"""\n\ta\n\t b\n"""'])
        body = []
        nl = r.choice(["\n", "\n", "\r\n"])
        for i in range(r.randrange(1, 6)):
            if i:
                body.append(nl)
            k = r.random()
            ind = "".join(r.choice("  \t") for _ in range(r.randrange(0, 5)))
            if k < 0.25:
                body.append(ind)
            elif k < 0.75:
                body.append(ind + r.choice(["abc", "x y", "é", '"q"', "\\n", '\\"""', "\\", "# c", "{}", "\u00a0z", "a\tb", "日本"]))
            else:
                t = self.plain_text(r.randrange(1, 5)).replace('"""', "").replace("\\", "")
                body.append(ind + t)
        t = "".join(body)
        # keep it one block string
        while '"""' in t.replace('\\"""', ""):
            t = t.replace('"""', '\\"""') if '\\"""' not in t else t.replace('"', "'")
        if t.endswith('"') or t.endswith("\\"):
            t += " "
        return '"""' + t + '"""'

    def terminal(self, nt, t):
        if t == "N":
            if nt == "Location":
                if self.rng.random() < self.bad:
                    return self.rng.choice(["Field", "FIELDS", "QUERYX", "field", "VARIABLE", "INPUT"])
                return self.rng.choice(LOCATIONS)
            if nt == "RootOp" and self._rootop:
                self._rootop = False
                if self.rng.random() < self.bad:
                    return self.rng.choice(["query", "Query", "subscriptions", "mutation"])
                return self._roots.pop() if self._roots else "query"
            if nt == "EnumV":
                return self.name(("true", "false", "null"))
            if nt == "Spread":
                return self.name(("on",))
            return self.name()
        if t == "I":
            return self.integer()
        if t == "F":
            return self.floating()
        if t == "S":
            return self.quoted()
        if t == "B":
            return self.block()
        return t

    _rootop = False
    _roots = ()

    # ------------------------------------------------------------- syntax
    def expand(self, nt, out):
        p = self.prod[nt]
        r = self.rng
        if p["k"] == "alt":
            alts = p["x"]
            if self.budget <= 0:
                least = min(self.cost[a] for a in alts)
                alts = [a for a in alts if self.cost[a] <= least]
            self.expand(r.choice(alts), out)
            return
        if nt in IDIOMS and r.random() < self.known:
            out.extend(r.choice(IDIOMS[nt]))
            self.budget -= 3
            return
        if nt == "Schema":
            roots = ["query", "mutation", "subscription"]
            r.shuffle(roots)
            self._roots = roots
        if nt == "RootOp":
            self._rootop = True
        for j, it in enumerate(p["x"]):
            k = it[0]
            if k in ("t", "v"):
                if it[1] == "END" and nt in ("QDoc", "SDoc"):
                    continue
                out.append(self.terminal(nt, it[1]))
                self.budget -= 1
            elif k == "n":
                self.expand(it[1], out)
            elif k == "o":
                if self.budget > 0 and r.random() < (0.45 if it[1] != "Selections" else 0.3):
                    self.expand(it[1], out)
                elif nt.endswith("X") and j == len(p["x"]) - 1 and r.random() > self.bad:
                    self.expand(it[1], out)
            elif k == "*":
                if nt == "Schema":
                    n = r.randrange(0, 4)
                elif self.budget > 0:
                    n = r.choice([0, 0, 1, 1, 2, self.maxrep])
                else:
                    n = 0
                if nt == "ScalarX" and n == 0 and r.random() > self.bad:
                    n = 1
                self.repeat(it[1], n, out)
            elif k == "+":
                n = r.choice([1, 1, 2, self.maxrep]) if self.budget > 0 else 1
                self.repeat(it[1], n, out)
            elif k == "s":
                n = r.choice([1, 1, 2, self.maxrep]) if self.budget > 0 else 1
                for i in range(n):
                    if i:
                        out.append(it[2])
                        if r.random() < self.echo:
                            out.append(out[-2])
                            continue
                    self.expand(it[1], out)

    def repeat(self, nt, n, out):
        """n items, now and then the same one again"""
        parts = []
        for _ in range(n):
            if parts and nt != "RootOp" and self.rng.random() < self.echo:
                out.extend(self.rng.choice(parts))
                continue
            part = []
            self.expand(nt, part)
            parts.append(part)
            out.extend(part)

    def tokens(self, nt, size):
        self.budget = size
        self.few = None
        if self.rng.random() < 0.35:
            self.few = [self.name(gen_reserved) for _ in range(3)]
        out = []
        self.expand(nt, out)
        return out


# ------------------------------------------------------------------ layout
def is_punct(t):
    return t in ("!", "$", "(", ")", "...", ":", "=", "@", "[", "]", "{", "|", "}", "&")


def must_separate(a, b):
    """would these two tokens be read differently if nothing stood between them?"""
    if is_punct(a):
        return False
    if is_punct(b):
        return b == "..." and (a[0].isdigit() or a[0] == "-")
    return True


COMMENTS = ["# c", "#", '# "not a string', "# {", "#\tx", "# é😀", "# a, b", "# \\", '# """', "##", "#\ufeff", "#a\u2028;", "#\u2029}", "#\x85;", "#\x0b;", "#\x0c}", "#\x00;", "#\x7f", "#'}", "# ]\u200b"]


def filler(rng, mode, last=False):
    if mode == "space":
        return " "
    if mode == "line":
        return "\n"
    if mode == "comma":
        return rng.choice([",", ", ", " ,"])
    if mode == "pretty":
        return rng.choice([" ", " ", "\n", "\n  ", ", ", "\n\n    "])
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.random()
        if k < 0.35:
            out.append(rng.choice([" ", "  ", "\n", "\n  "]))
        elif k < 0.5:
            out.append(rng.choice([",", ",,", ", "]))
        elif k < 0.6:
            out.append("\t")
        elif k < 0.7:
            out.append("\r\n")
        elif k < 0.75:
            out.append("\r")
        elif k < 0.8:
            out.append("\ufeff")
        else:
            c = rng.choice(COMMENTS) + rng.choice(["\n", "\n", "\r\n", "\r"])
            out.append(c)
    if last and rng.random() < 0.3:
        out.append(rng.choice(COMMENTS))
    return "".join(out)


def sep_ok(s):
    return any(c in s for c in " ,\t\n\r#\ufeff")


def layout(tokens, rng, mode):
    out = []
    if mode == "wild" and rng.random() < 0.6:
        out.append(filler(rng, mode))
    for i, t in enumerate(tokens):
        if i:
            need = must_separate(tokens[i - 1], t)
            if mode == "tight":
                f = " " if need else ""
            elif not need and rng.random() < 0.4:
                f = ""
            else:
                f = filler(rng, mode)
            if need and not sep_ok(f):
                f = " " + f
            out.append(f)
        out.append(t)
    if mode != "tight" and rng.random() < 0.6:
        f = filler(rng, mode, last=True)
        out.append(f)
    return "".join(out)


MODES = ["tight", "space", "pretty", "line", "comma", "wild", "wild", "wild"]


# --------------------------------------------------------------- mutations
INSERTS = ["!", "$", "(", ")", "...", ":", "=", "@", "[", "]", "{", "|", "}", "&", "a", "on", "1", "1.5", '"s"',
           '"""b"""', "true", "null", "type", "query", "extend", "fragment", "implements", "-1", "FIELD"]


def mutate_tokens(tokens, rng, n=1):
    t = list(tokens)
    for _ in range(n):
        if not t:
            break
        k = rng.random()
        i = rng.randrange(len(t))
        if k < 0.3:
            del t[i]
        elif k < 0.55:
            t.insert(i, rng.choice(INSERTS))
        elif k < 0.8:
            t[i] = rng.choice(INSERTS)
        elif k < 0.87:
            t.insert(i, t[i])
        elif k < 0.94:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        else:
            t = t[:i]
    return t


CHARS = list("!$().:=@[]{|}&\"\\#,;%^*~`'?<>/+-_aeEuU019 \n\t\r") + ["\ufeff", "é", "😀", "\x00", "\u2028", '"""', "..."]


def mutate_chars(text, rng, n=1):
    s = list(text)
    for _ in range(n):
        if not s:
            break
        k = rng.random()
        i = rng.randrange(len(s))
        if k < 0.35:
            del s[i]
        elif k < 0.7:
            s.insert(i, rng.choice(CHARS))
        elif k < 0.95:
            s[i] = rng.choice(CHARS)
        else:
            s = s[:i]
    return "".join(s)
