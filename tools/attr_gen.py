"""Attribute lists for json_parse's Meta, and what its queries have to answer."""
import json, random, struct

NAMES = ["serde", "doc", "x", "key", "r#type", "clippy::all", "clippy::nursery", "a::b::c", "rustfmt::skip", "allow", "cfg_", "cfg", "ignore", "true_", "_", "all", "Größe", "keys", "ke", "b::c"]
OTHER = ["x = a", "x = 1 + 2", "x = 'c'", "x = c\"s\"", "key = concat!(\"a\", \"b\")", "x(a)(b)", "x = -y", "x = [1, 2]", "x = a::b", "a | b", "x => y", "x = \"a\" \"b\"", "'c'", "a.b", "!a", "a = || 1",
         "x = 1..=2", "-\"s\"", "- x", "key : a", "key = -true", "x = - \"s\"", "x = { 1; 2 }", "x = -(1)", "(a)", "[key = 1]", "key != 1", "key == 1", "a b c", "x = r#type", "x -> y", "x = a(b)", "serde(key = 1) = 2", "-b\"x\"", "x +"]
SUFFIX = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]


class A:
    def __init__(self, seed, index):
        self.r = random.Random("attr/%d/%d" % (seed, index))
        self.used = set()

    def u(self, k):
        self.used.add(k)

    def c(self, xs):
        return self.r.choice(xs)

    def text(self, ban=""):
        return "".join(x for x in (self.c(["a", "b", " ", "#", "=", "(", "]", "é", "💖", "0", ",", "//", "'", "r", "{}", "key", "-"]) for _ in range(self.r.randrange(7))))

    def lit(self):
        """a literal: its text, its tokens and what it holds"""
        r = self.r
        k = r.randrange(20)
        neg = ""
        L = {"string": None, "bytes": None, "integer": None, "float": None, "boolean": None}
        if k < 7:
            n = self.c([0, 1, 7, 42, 127, 255, 65535, 2147483647, 2147483646, r.randrange(10 ** r.randrange(1, 10))])
            t = self.c(["", "", "", "0", "00"]) + str(n) + self.c(["", "", "", self.c(SUFFIX)])
            if r.random() < 0.35:
                neg = "-"
            L["integer"] = -n if neg else n
            self.u("negative integer" if neg else "integer")
        elif k < 10:
            m = self.c(["1.5", "0.25", "1e3", "2.5E-3", "3.0", "0.1", "123456.789", "1.", "0e0", "0.0", "1E+2", "179769313486231570000000000000000000000.0", "5e-324", "1e400",
                        "%d.%d" % (r.randrange(10 ** 6), r.randrange(10 ** 9)), "%d.%de%d" % (r.randrange(100), r.randrange(1000), r.randrange(-300, 300))])
            t = m + ("" if m.endswith(".") else self.c(["", "", "f64", "f32"]))
            if r.random() < 0.1:
                m = str(r.randrange(1000)); t = m + self.c(["f32", "f64"])
            if r.random() < 0.35:
                neg = "-"
            v = float(m)
            L["float"] = str(struct.unpack("<Q", struct.pack("<d", -v if neg else v))[0])
            self.u("negative float" if neg else "float")
        elif k < 12:
            t = self.c(["true", "false"])
            L["boolean"] = t == "true"
            self.u("boolean")
        else:
            b = r.random() < 0.3
            pre = "b" if b else ""
            if r.random() < 0.5:
                s = "".join(self.c([self.text(), '\\"', "\\\\", "\\n", "\\x41", "\\'", "\\0", '\\"#'] + ([] if b else ["\\u{e9}"])) for _ in range(r.randrange(4)))
                q = '"', '"'
                self.u("escapes" if "\\" in s else "plain string")
            else:
                n = self.c([0, 1, 1, 2, 3, 5])
                s = self.text() + ("" if n == 0 else self.c(["", '"', "\\", '"x"', '"' + "#" * (n - 1) + "x", '"' + "#" * (n - 1)]))
                if n == 0 and self.r.random() < 0.3:
                    s += "\\"
                q = "r" + "#" * n + '"', '"' + "#" * n
                self.u("raw string %d" % n)
            if b:
                s = "".join(x for x in s if ord(x) < 128)
                if r.random() < 0.25:
                    s = self.c(["x", "'"[:0] + "y", "\\n", "\\'", "\\x7f", "\"", "#", " "]); q = "'", "'"
                L["bytes"] = list(s.encode())
                self.u("bytes")
            else:
                L["string"] = s
            t = pre + q[0] + s + q[1]
        L["text"] = (["p:-"] if neg else []) + [("i:" if t in ("true", "false") else "l:") + t]
        src = neg + (self.c(["", " "]) if neg else "") + t
        if not neg and r.random() < 0.05:
            src = "NONE__(%s)" % src
            self.u("literal in a group without delimiters")
        return src, L

    def item(self, depth):
        """-> (kind, name, value), source"""
        r = self.r
        k = r.randrange(20)
        name = self.c(self.names) if r.random() < 0.6 else self.c(NAMES)
        sep = self.c(["::", "::", " :: "])
        src = name.replace("::", sep)
        if k < 4:
            self.u("name"); return ("ident", name, None), src
        if k < 9:
            s, L = self.lit()
            self.u("pair")
            return ("pair", name, L), src + self.c([" = ", "=", " : ", ": ", " = ", " ="]) + s
        if k < 12:
            s, L = self.lit()
            self.u("literal"); return ("lit", None, L), s
        if k < 18 and depth < 5:
            o, c = self.c(["()", "()", "()", "[]", "{}"])
            its, ss = self.items(self.c([0, 1, 2, 2, 3, 4]), depth + 1)
            self.u("group in %d groups" % depth)
            return ("group", name, its), src + self.c(["", " "]) + o + self.c([", ", ",", " , "]).join(ss) + (self.c(["", ","]) if ss else "") + c
        self.u("other form")
        return ("other", None, None), self.c(OTHER)

    def items(self, n, depth):
        x = [self.item(depth) for _ in range(n)]
        return [a for a, _ in x], [b for _, b in x]

    def case(self):
        """-> text for the harness, names asked for, the list"""
        r = self.r
        self.names = r.sample(NAMES, 3)
        its, ss = self.items(self.c([1, 1, 2, 3, 4, 6]), 0)
        attrs = ["#[%s]" % s for s in ss]
        if r.random() < 0.15:
            i = r.randrange(len(its) + 1)
            t = self.c(["words", "x", "two words", "a b"])
            self.u("doc comment")
            its.insert(i, ("pair", "doc", {"string": " " + t, "bytes": None, "integer": None, "float": None, "boolean": None, "text": None}))
            attrs.insert(i, "/// %s\n" % t)
        a = self.c([" ", "\n", ""]).join(attrs) + " "
        site = self.c(["%sstruct S;", "%spub struct S<T> { a: T }", "%senum E { A }", "%sfn f() {}", "%spub(crate) async unsafe fn f<T>(x: T) -> T { x }", "struct S { %sa: u8 }", "struct S { b: u8, %spub a: Vec<u8>, }",
                       "struct S(%su8);", "struct S(u8, %spub (u8, u8));", "enum E { %sA }", "enum E { A, %sB(u8) = 1 }", "enum E { A, B { %sa: u8 } }", "enum E { A(u8, %su8) }", "struct S(%s[u8; 3]);", "struct S(%spub [u8; 3]);"])
        self.u("on " + site.replace("%s", "#[..] "))
        ask = list(dict.fromkeys(self.names[:3] + [self.c(NAMES), self.c(["absent", "", "KEY", "typ", "r#key", "clippy", "a::b"])]))
        return site.replace("%s", a) + "".join("\x01" + n for n in ask), ask, its


# ---------------------------------------------------------------- what has to be answered

def expect(its, names, depth=3):
    """-> the answers; for one of several with the same name a list under "any" """
    shown = [x for x in its if x[0] in ("ident", "lit")]

    def one(x):
        return {"ident": x[1] if x[0] == "ident" else None, "literal": x[2] if x[0] == "lit" else None, "pair": None, "group": None}

    def at(its, n):
        s = [x for x in its if x[0] in ("ident", "lit")]
        return [one(s[i]) if i < len(s) else None for i in range(n)]

    def pair(its, k):
        for x in its:
            if x[0] == "pair" and x[1] == k:
                return x[2]

    def group(its, k):
        for x in its:
            if x[0] == "group" and x[1] == k:
                return x[2]

    def inner(x):
        return None if x is None else expect(x, names, depth - 1) if depth > 0 else "deep"
    e = {
        "idents": [x[1] for x in its if x[0] == "ident"],
        "literals": [x[2] for x in its if x[0] == "lit"],
        "at": at(its, len(shown) + 3), "at_ref": at(its, len(shown) + 3),
        "get": [pair(its, k) for k in names],
        "group": [inner(group(its, k)) for k in names],
    }
    ps, gs = {}, {}
    for x in its:
        if x[0] == "pair":
            ps.setdefault(x[1], []).append(x[2])
        if x[0] == "group":
            gs.setdefault(x[1], []).append(inner(x[2]))
    e["pairs"] = {k: {"any": v} for k, v in ps.items()}
    e["groups"] = {k: {"any": v} for k, v in gs.items()}
    g = {k: group(its, k) for k in names}
    e["nested"] = [[None if g[k] is None else pair(g[k], j) for j in names] for k in names]
    e["nested_at"] = [[None] * 4 if g[k] is None else at(g[k], 4) for k in names]
    gg = {(k, j): None if g[k] is None else group(g[k], j) for k in names for j in names}
    e["nested2"] = [[[None] * 3 if gg[k, j] is None else at(gg[k, j], 3) for j in names] for k in names]
    e["nested3"] = [[None if gg[k, j] is None else {"written": gg[k, j]} for j in names] for k in names]
    return e


def differ(want, got, path=""):
    """-> message or None"""
    if isinstance(want, dict) and "any" in want:
        ms = [differ(w, got, path) for w in want["any"]]
        return None if None in ms else ms[-1]
    if isinstance(want, dict) and "written" in want:
        # the text of a group: as many items as there are, separated by commas
        if got is None:
            return path + ": nothing"
        n, d = (1 if got else 0), 0
        for t in got:
            d += (t in ("(", "[", "{")) - (t in (")", "]", "}"))
            n += t == "p:," and d == 0
        return None if n == len(want["written"]) else "%s: written with %d items, not %d" % (path, n, len(want["written"]))
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: %s, not %s" % (path, short(got), short(want))
        for k in want:
            if k == "text" and want[k] is None:
                continue
            if k not in got:
                return "%s: %s is missing" % (path, k)
            m = differ(want[k], got[k], "%s.%s" % (path, k))
            if m:
                return m
        more = [k for k in got if k not in want]
        return "%s: also says %s" % (path, more[0]) if more else None
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return "%s: %s, not %s" % (path, short(got), short(want))
        for i, (a, b) in enumerate(zip(want, got)):
            m = differ(a, b, "%s[%d]" % (path, i))
            if m:
                return m
        return None
    return None if want == got and type(want) == type(got) else "%s: %s, not %s" % (path, short(got), short(want))


def short(x):
    s = json.dumps(x, ensure_ascii=False)
    return s if len(s) < 160 else s[:160] + ".."


def judge(names, its, r):
    if not r["lexes"]:
        return None
    if "panic" in r:
        return "json_parse panics (%s)" % r["panic"]
    if "error" in r:
        return "is not read: %s" % r["error"][:300]
    m = differ(expect(its, names), r["queries"] or {})
    return m and "asked for %s: answers %s" % (names, m)
