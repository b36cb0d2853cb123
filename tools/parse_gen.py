"""Declarations and attributes for json_parse, and an independent reader of token lists."""
import random

# ---------------------------------------------------------------- reading token lists

OPEN = {"(": ")", "[": "]", "{": "}"}


class Bad(Exception):
    pass


def tree(toks):
    """flat tokens -> nested: a token is a string, a group is [open, [...]]"""
    st, cur = [], []
    for t in toks:
        if t in OPEN or t == "<<":
            st.append((t, cur)); cur = []
        elif t in (")", "]", "}", ">>"):
            o, up = st.pop()
            up.append([o, cur]); cur = up
        else:
            cur.append(t)
    if st:
        raise Bad("groups")
    return cur


def flat(tr):
    out = []
    for t in tr:
        if isinstance(t, list):
            out.append(t[0]); out += flat(t[1]); out.append(OPEN.get(t[0], ">>"))
        else:
            out.append(t)
    return out


def p(t):
    """the character of a punct"""
    return t[2] if isinstance(t, str) and t.startswith("p:") else ""


def is_i(t, name=None):
    return isinstance(t, str) and t.startswith("i:") and (name is None or t == "i:" + name)


def split(tr, sep):
    """at a separator outside of angle brackets, empty pieces left out"""
    out, cur, d, prev = [], [], 0, ""
    for i, t in enumerate(tr):
        c = p(t)
        if c == "<":
            d += 1
        elif c == ">" and prev != "-":
            d -= 1
        if c == sep and d == 0 and not (sep == ":" and (t == "p::+" or (prev == ":" and i and tr[i - 1] == "p::+"))):
            out.append(cur); cur = []
        else:
            cur.append(t)
        prev = c
    out.append(cur)
    return [x for x in out if x]


def attr(tr):
    """the content of an attribute: the delimiters of name(..) do not matter, nor do empty places in it"""
    k = 0
    while k + 3 < len(tr) and is_i(tr[k]) and p(tr[k + 1]) == ":" and p(tr[k + 2]) == ":":
        k += 3
    if len(tr) == k + 2 and is_i(tr[k]) and isinstance(tr[k + 1], list) and tr[k + 1][0] != "<<":
        out, items, cur = [], [], []
        for t in tr[k + 1][1] + ["p:,"]:
            if p(t) == ",":
                if cur:
                    items.append(cur)
                cur = []
            else:
                cur.append(t)
        for i, x in enumerate(items):
            out += (["p:,"] if i else []) + attr(x)
        return tr[:k + 1] + [["(", out]]
    return tr


def ty(tr):
    """a type or an expression: a comma before '>' says nothing"""
    out = []
    for i, t in enumerate(tr):
        if p(t) == "," and i + 1 < len(tr) and p(tr[i + 1]) == ">":
            continue
        out.append([t[0], t[1]] if isinstance(t, list) else t)
    return flat(out)


def key(x):
    return " ".join(x)


class R:
    """reads an item from a token tree"""
    def __init__(self, tr):
        self.t, self.i = tr, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad("ends early")
        self.i += 1
        return self.t[self.i - 1]

    def meta(self):
        out = []
        while p(self.peek()) == "#" and isinstance(self.peek(1), list) and self.peek(1)[0] == "[":
            self.next()
            out += ["p:#", "["] + flat(attr(self.next()[1])) + ["]"]
        return out or None

    def vis(self):
        if is_i(self.peek(), "pub"):
            self.next()
            g = self.peek()
            if isinstance(g, list) and g[0] == "(" and g[1] and (is_i(g[1][0], "in") or (len(g[1]) == 1 and g[1][0] in ("i:crate", "i:self", "i:super"))):
                return flat(self.next()[1])
            return []
        return None

    def ident(self):
        t = self.next()
        if not is_i(t):
            raise Bad("expected a name")
        return t[2:]

    def generics(self):
        if p(self.peek()) != "<":
            return None
        self.next()
        d, cur, prev = 1, [], ""
        while True:
            t = self.next()
            c = p(t)
            if c == "<":
                d += 1
            elif c == ">" and prev != "-":
                d -= 1
                if d == 0:
                    break
            cur.append(t)
            prev = c
        return [param(x) for x in split(cur, ",")]

    def where(self, ends):
        if not is_i(self.peek(), "where"):
            return None
        self.next()
        cur, d, prev = [], 0, ""
        while True:
            t = self.peek()
            if t is None:
                raise Bad("where without an end")
            c = p(t)
            if d == 0 and (c == ";" or (isinstance(t, list) and t[0] == "{")):
                break
            if c == "<":
                d += 1
            elif c == ">" and prev != "-":
                d -= 1
            prev = c
            cur.append(self.next())
        return [param(x) for x in split(cur, ",")]


def param(tr):
    """name, bounds and default of a type parameter or a where predicate"""
    first = split(tr, "=")
    eq = [i for i, t in enumerate(tr) if p(t) == "="]
    default = None
    head = tr
    if len(first) == 2 and eq:
        head, default = first[0], ty(first[1])
    elif len(first) != 1:
        raise Bad("parameter with several =")
    # a type may have ':' of its own only inside of brackets or as '::'
    d, prev, at = 0, "", None
    for i, t in enumerate(head):
        c = p(t)
        if c == "<":
            d += 1
        elif c == ">" and prev != "-":
            d -= 1
        elif c == ":" and d == 0 and t != "p::+" and not (i and head[i - 1] == "p::+"):
            at = i
            break
        prev = c
    name = head if at is None else head[:at]
    bounds = [] if at is None else split(head[at + 1:], "+")
    const = is_i(name[0], "const") and len(name) == 2
    tr_, lt, sized = [], [], True
    for b in bounds:
        if b == ["i:Sized"]:
            continue
        if p(b[0]) == "?" and is_i(b[-1], "Sized"):
            sized = False
        elif p(b[0]) == "'" and len(b) == 2:
            lt.append(ty(b))
        else:
            tr_.append(ty(b))
    return {"ident": ty(name[1:] if const else name), "constant": const, "traits": tr_, "lifetimes": lt, "sized": sized, "default": default,
            "is_lifetime": p(name[0]) == "'", "is_static": name == ["p:'", "i:static"]}


def fields(g):
    if g is None:
        return "none"
    out = []
    for pos, f in enumerate(split(g[1], ",")):
        r = R(f)
        x = {"meta": r.meta(), "vis": r.vis()}
        if g[0] == "{":
            x["ident"] = r.ident()
            if p(r.next()) != ":":
                raise Bad("field")
        else:
            x["pos"] = pos
        x["ty"] = ty(r.t[r.i:])
        if not x["ty"]:
            raise Bad("field without a type")
        out.append(x)
    return out


def values(g):
    out = []
    for v in split(g[1], ","):
        q = R(v)
        y = {"meta": q.meta(), "ident": q.ident(), "fields": "none", "disc": None}
        if isinstance(q.peek(), list):
            y["fields"] = fields(q.next())
        if q.peek() is not None:
            if p(q.next()) != "=":
                raise Bad("variant")
            y["disc"] = ty(q.t[q.i:])
        out.append(y)
    return out


def params(g):
    out = []
    for q in split(g[1], ","):
        # a pattern and a type, or some form of self
        parts = split(q, ":")
        out.append({"ident": ty(parts[0]) if len(parts) == 2 else None, "ty": ty(parts[-1])})
    return out


def alone(kind, toks):
    """a part of a declaration alone"""
    r = R(tree(toks))
    if kind == "generics":
        return end(r, r.generics())
    if kind == "where":
        r.t = r.t + ["p:;"]
        x = r.where(1)
        r.next()
        return end(r, x)
    if kind == "meta":
        return end(r, r.meta())
    g = r.next()
    if kind == "fields":
        return end(r, fields(g if isinstance(g, list) else None))
    return end(r, {"values": values, "params": params}[kind](g))


def item(toks):
    r = R(tree(toks))
    x = {"meta": r.meta(), "vis": r.vis()}
    flags = [False, False, False]
    abi = None
    while is_i(r.peek()) and r.peek() in ("i:async", "i:const", "i:unsafe", "i:extern"):
        k = r.next()[2:]
        if k == "extern":
            abi = 'l:"C"'
            if isinstance(r.peek(), str) and r.peek().startswith("l:"):
                abi = r.next()
        else:
            flags[("async", "const", "unsafe").index(k)] = True
    kw = r.ident()
    if kw != "fn" and (any(flags) or abi):
        raise Bad("keywords before " + kw)
    x["which"] = [kw == "struct", kw == "enum", kw == "fn"]
    if kw not in ("struct", "enum", "fn"):
        raise Bad("keyword " + kw)
    x["ident"] = r.ident()
    x["generics"] = r.generics() or None
    if kw == "struct":
        g = r.peek()
        if isinstance(g, list) and g[0] == "(":
            r.next()
            x["where"] = r.where(1)
            x["fields"] = fields(g)
        else:
            x["where"] = r.where(1)
            g = r.peek()
            if isinstance(g, list) and g[0] == "{":
                r.next()
                x["fields"] = fields(g)
                x["where"] = x["where"] or None
                return end(r, x)
            x["fields"] = fields(None)
        x["where"] = x["where"] or None
        if p(r.next()) != ";":
            raise Bad("expected ;")
        return end(r, x)
    if kw == "enum":
        x["where"] = r.where(1) or None
        g = r.next()
        if not isinstance(g, list) or g[0] != "{":
            raise Bad("variants")
        x["values"] = values(g)
        return end(r, x)
    x["flags"], x["abi"] = flags, abi
    g = r.next()
    if not isinstance(g, list) or g[0] != "(":
        raise Bad("parameters")
    x["params"] = params(g)
    x["ret"] = None
    if p(r.peek()) == "-":
        r.next(); r.next()
        cur, d, prev = [], 0, ""
        while True:
            t = r.peek()
            if t is None or (d == 0 and (is_i(t, "where") or (isinstance(t, list) and t[0] == "{"))):
                break
            c = p(t)
            d += (c == "<") - (c == ">" and prev != "-")
            prev = c
            cur.append(r.next())
        x["ret"] = ty(cur)
    x["where"] = r.where(1) or None
    g = r.next()
    if not isinstance(g, list) or g[0] != "{":
        raise Bad("body")
    x["body"] = flat([g])
    return end(r, x)


def end(r, x):
    if r.peek() is not None:
        raise Bad("tokens behind the item")
    return x


def pieces(tr):
    """a path at its '::' outside of angle brackets"""
    out, cur, d, prev, i = [], [], 0, "", 0
    while i < len(tr):
        c = p(tr[i])
        if c == "<":
            d += 1
        elif c == ">" and prev != "-":
            d -= 1
        if d == 0 and tr[i] == "p::+" and i + 1 < len(tr) and p(tr[i + 1]) == ":":
            out.append(cur); cur = []; i += 2; prev = ":"
            continue
        cur.append(tr[i]); prev = c; i += 1
    return out + [cur]


def name_(tr):
    """a name taken apart; prefixes, ident and arguments only where the form is a plain path"""
    x = {"text": ty(tr), "is_lifetime": len(tr) == 2 and p(tr[0]) == "'"}
    if x["is_lifetime"]:
        return dict(x, prefixes=[], ident=ty(tr), generics=[])
    ps = pieces(tr)
    last, pre = ps[-1], ps[:-1]
    if any(not (len(q) == 1 and is_i(q[0])) and not (q == [] and i == 0) for i, q in enumerate(pre)):
        return x
    if len(last) == 1 and (is_i(last[0]) or (isinstance(last[0], list) and not pre and last[0][0] in "([")):
        return dict(x, prefixes=[ty(q) for q in pre], ident=ty(last), generics=[])
    if len(last) > 3 and is_i(last[0]) and p(last[1]) == "<" and p(last[-1]) == ">":
        d, prev = 0, ""
        for i, t in enumerate(last):
            d += (p(t) == "<") - (p(t) == ">" and prev != "-")
            prev = p(t)
            if d == 0 and 0 < i < len(last) - 1:
                return x
        return dict(x, prefixes=[ty(q) for q in pre], ident=ty(last[:1]), generics=[type_(q) for q in split(last[2:-1], ",")])
    return x


def type_(tr):
    """a type taken apart"""
    x = {"text": ty(tr), "used": ty(tr), "ident": None, "lifetime": None}
    eq = split(tr, "=")
    if len(eq) == 2:
        x["ident"], tr = ty(eq[0]), eq[1]
    i = 0

    def at(f):
        return i < len(tr) and f(tr[i])
    x["is_ref"] = at(lambda t: p(t) == "&")
    i += x["is_ref"]
    if x["is_ref"] and at(lambda t: p(t) == "'"):
        x["lifetime"] = ty(tr[i:i + 2]); i += 2
    x["is_mut"] = x["is_ref"] and at(lambda t: is_i(t, "mut"))
    i += x["is_mut"]
    x["is_dyn"] = at(lambda t: is_i(t, "dyn"))
    i += x["is_dyn"]
    x["is_imp"] = not x["is_dyn"] and at(lambda t: is_i(t, "impl"))
    i += x["is_imp"]
    x["names"] = [name_(q) for q in split(tr[i:], "+")]
    x["is_lifetime"] = len(x["names"]) == 1 and x["names"][0]["is_lifetime"]
    return x


def apart(want, got, path="type"):
    """where a report differs from what was read; what the reading does not say is not compared"""
    if isinstance(want, dict):
        for k in want:
            d = apart(want[k], got.get(k), path + "." + k)
            if d:
                return d
        return None
    if isinstance(want, list) and want and isinstance(want[0], (dict, list)):
        if not isinstance(got, list) or len(got) != len(want):
            return "%s: %d expected, got %s" % (path, len(want), got)
        for i, (a, b) in enumerate(zip(want, got)):
            d = apart(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(got, list) and isinstance(want, list):
        got = ty(tree(got))
    return None if want == got else "%s: %s / %s" % (path, show(want), show(got))


def same(a, b, path=""):
    """where two readings differ; bounds in any order"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k in ("traits", "lifetimes"):
                x, y = sorted(map(key, a.get(k, []))), sorted(map(key, b.get(k, [])))
                if x != y:
                    return "%s.%s: %s / %s" % (path, k, x, y)
                continue
            if k not in a or k not in b:
                return "%s.%s missing" % (path, k)
            d = same(a[k], b[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and a and b and isinstance(a[0], dict):
        if len(a) != len(b):
            return "%s: %d / %d entries" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %s / %s" % (path, show(a), show(b))


def show(x):
    return " ".join(t[2:].rstrip("+") if t[:2] in ("p:", "i:", "l:") else t for t in x) if isinstance(x, list) and all(isinstance(t, str) for t in x) else repr(x)


def parts_of(x):
    """what the parts of a reading are reported as"""
    y = dict(x)

    def gen(items, where=False):
        return [dict(g) for g in items]
    if y["generics"] is not None:
        only, bare = [], []
        for g in y["generics"]:
            only += (["p:,"] if only else []) + g["ident"]
        y["generics"] = {"items": gen(y["generics"]), "only": ["p:<"] + only + ["p:>"]}
    return y


# ---------------------------------------------------------------- generating

LETTERS = ["T", "U", "V", "W", "K"]
NAMES = ["a", "b", "field", "r#type", "x1", "_x", "value", "r#match", "Größe", "where_", "key", "struct_", "pub_", "i", "of", "union", "auto", "default", "dyn_"]
UP = ["S", "Point", "Very_Long_Name_9", "Ünï", "E", "Wrapper", "r#Enum_", "A1", "Self_", "Struct", "Fn2"]
TRAITS = ["Clone", "Copy", "std::fmt::Debug", "::core::default::Default", "Iterator<Item = u8>", "Into<Vec<u8>>", "Fn(u8, &str) -> bool", "FnOnce()", "FnMut(&mut u8)",
          "for<'x> Fn(&'x u8) -> &'x str", "PartialEq<U>", "AsRef<[u8]>", "Tr<'static, u8, 3>", "std::ops::Fn(u8) -> Result<(), Box<dyn std::error::Error>>",
          "IntoIterator<Item = (u8, Option<T>), IntoIter = I>", "Tr<{ 1 + 2 }>", "Tr<-1>", "Tr<Assoc<'static> = u8>", "(Send)", "std::iter::Iterator<Item = <T as Tr>::Out>", "Iterator<Item: Clone>"]


class G:
    def __init__(self, seed, index):
        self.r = random.Random("%d/%d" % (seed, index))
        self.used = set()
        self.lts, self.tys = [], []
        self.plain = True     # every form used is one that has to be read

    def u(self, k):
        self.used.add(k)

    def c(self, xs):
        return self.r.choice(xs)

    def lit(self, neg=False):
        r = self.r
        k = r.randrange(12)
        if k < 4:
            n = self.c([0, 1, 7, 42, 255, 65535, 2147483647, r.randrange(10 ** r.randrange(1, 10))])
            return "%d%s" % (n, self.c(["", "", "", "u8", "i32", "usize", "u128", "i64", "i8"]))
        if k < 5:
            return self.c(["1.5", "0.25", "1e3", "2.5E-3", "3.0f32", "1.25f64", "1f64", "0.1", "123456.789", "1.", "0e0"])
        if k < 6:
            return self.c(["true", "false"])
        if k < 9:
            return self.string()
        if k < 10:
            return self.c(['b"ab"', 'b"\\x00\\n"', 'br"raw\\"', 'br#"a"b"#', "b'x'", "b'\\''", 'br##"x"#y"##', 'b""'])
        return self.string()

    def string(self):
        r = self.r
        k = r.randrange(8)
        body = "".join(self.c(["a", "b", " ", "#", "=", "(", "]", "é", "💖", "0", ",", "//", "'", "r", "{}"]) for _ in range(r.randrange(6)))
        if k < 4:
            esc = "".join(self.c([body, '\\"', "\\\\", "\\n", "\\u{e9}", "\\x41", "\\'", "\\0", '\\"#']) for _ in range(r.randrange(4)))
            return '"%s"' % esc
        if k == 4:
            return 'r"%s"' % (body + self.c(["", "\\", "\\n"]))
        n = self.c([1, 1, 2, 3, 5])
        inner = body + self.c(["", '"', '"' + "#" * (n - 1) + "x", "\\", '"x"'])
        if inner.endswith('"') and False:
            inner += "x"
        return "r%s\"%s\"%s" % ("#" * n, inner, "#" * n)

    def attr_content(self, depth=0):
        r = self.r
        k = r.randrange(20)
        name = self.c(["serde", "doc", "x", "key", "r#type", "clippy::all", "a::b::c", "rustfmt::skip", "allow", "cfg_", "ignore", "true_", "_"])
        if k < 4:
            return name
        if k < 9:
            return "%s %s %s%s" % (name, self.c(["=", "=", "=", ":"]), self.c(["", "", "-"]) if True else "", self.lit_for_pair())
        if k < 10:
            return self.lit()
        if k < 11:
            return "-" + self.c(["1", "2.5", "7i8"])
        if k < 17 and depth < 3:
            o, c = self.c(["()", "()", "()", "[]", "{}"])
            items = [self.attr_content(depth + 1) for _ in range(r.randrange(4))]
            s = ", ".join(items) + (self.c(["", ","]) if items else "")
            return "%s%s%s%s" % (name, o, s, c)
        self.u("other attribute")
        return self.c(["x = a", "x = 1 + 2", "x = 'c'", "x = c\"s\"", "x = concat!(\"a\", \"b\")", "x(a)(b)", "derive", "x = 5000000000u64", "x = 0xff", "x = -y", "x = [1, 2]", "x = a::b", "x = -(1)", "x = 1_000", "a | b", "x => y",
                       "x = \"a\" \"b\"", "x()", "'c'", "x = r#type", "x = { 1; 2 }", "x = \"\\u{1F600}\"", "a.b", "!a", "a = || 1", "x = 1..=2"])

    def lit_for_pair(self):
        return self.lit()

    def meta(self, p=0.3):
        out = []
        while self.r.random() < p and len(out) < 4:
            self.u("attribute")
            if self.r.random() < 0.15:
                out.append(self.c(["/// doc \"x\"\n", "/** block */", "/// # a [b]\n"]))
            else:
                out.append("#[%s]" % self.attr_content())
        return " ".join(out) + (" " if out else "")

    def vis(self):
        v = self.c(["", "", "pub ", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate::a::b) ", "pub(self) ", "pub (in super :: x) "])
        self.u("vis " + v.strip())
        if v and self.r.random() < 0.1:
            self.u("group without delimiters"); return "NONE__(%s) " % v
        return v

    def lt(self):
        return self.c(["'static", "'_"] + self.lts * 3)

    def expr(self):
        return self.c(["3", "N", "1 + 2", "N * 2", "Self::N", "<T as Tr>::N", "{ 3 }", "A < B", "X::<3>::Y", "usize::MAX >> 60", "f(1, 2)", "b'x' as usize", "-1", "{ let x = 1; x }"])

    def ty(self, d=2, ctx=""):
        """a type, as text"""
        r = self.r
        if d > 0 and r.random() < 0.04:
            self.u("group without delimiters"); return "NONE__(%s)" % self.ty(d - 1, ctx)
        k = r.randrange(40) if d > 0 else r.randrange(8)
        t = lambda c="": self.ty(d - 1, c)
        if k < 5:
            return self.c(["u8", "i64", "f64", "bool", "String", "Self", "r#type", "char", "()", "!", "_"] if k > 1 else ["u8", "usize", "String"])
        if k < 8:
            return self.c(self.tys + ["a::B", "std::string::String", "::core::num::NonZeroU8", "crate::x::Y", "super::super::Z", "self::Q", "::Alone"])
        if k < 12:
            self.u("generic type"); return "%s<%s>" % (self.c(["Vec", "Option", "Box", "std::vec::Vec", "::std::rc::Rc"]), t())
        if k < 14:
            self.u("two arguments"); return "%s<%s, %s%s>" % (self.c(["HashMap", "Result", "std::collections::BTreeMap"]), t(), t(), self.c(["", "", ","]))
        if k < 16:
            self.u("lifetime argument"); return "%s<%s, %s>" % (self.c(["Cow", "a::Ref"]), self.lt(), t())
        if k < 19:
            self.u("reference"); return "&%s%s" % (self.c(["", "mut ", self.lt() + " ", self.lt() + " mut "]), t())
        if k < 21:
            self.u("array"); return "[%s; %s]" % (t(), self.expr())
        if k < 22:
            self.u("slice"); return "&[%s]" % t()
        if k < 25:
            self.u("tuple"); n = r.randrange(1, 4); return "(%s,%s)" % (t(), " " + ", ".join(t() for _ in range(n - 1)) if n > 1 else "")
        if k < 26:
            self.u("raw pointer"); return "*%s %s" % (self.c(["const", "mut"]), t())
        if k < 28:
            self.u("fn pointer")
            return "%s%s%sfn(%s)%s" % (self.c(["", "", "for<'f> "]), self.c(["", "unsafe "]), self.c(["", 'extern "C" ', "extern "]), self.c(["", t(), "x: " + t(), t() + ", " + t()]), self.c(["", " -> " + t()]))
        if k < 31:
            self.u("dyn"); b = [self.c(TRAITS)] + [self.c(["Send", "Sync", self.lt(), "'static"]) for _ in range(r.randrange(3))]
            s = "dyn " + " + ".join(b)
            return self.c(["Box<%s>" % s, "&(%s)" % s, "&" + s if len(b) == 1 else "Box<%s>" % s, "Rc<%s>" % s, "&mut " + s if len(b) == 1 else "&mut (%s)" % s, "&%s mut %s" % (self.lt(), s) if len(b) == 1 else "&%s (%s)" % (self.lt(), s)])
        if k < 32 and ctx == "fn":
            self.u("impl"); return "impl " + " + ".join([self.c(TRAITS)] + [self.c(["Send", self.lt(), "?Sized"]) for _ in range(r.randrange(2))])
        if k < 34:
            self.u("qualified path"); return self.c(["<%s as %s>::Out" % (t(), self.c(["Tr", "a::Tr<u8>", "Iterator"])), "<%s>::Out" % t(), "<%s as Tr>::Out<%s>" % (t(), t())])
        if k < 35:
            self.u("associated type"); return self.c(["T::Item", "Self::Out", "T::Item<'static>", "T::A::B"])
        if k < 36:
            self.u("const argument"); return "Foo<%s>" % self.c(["3", "{ N + 1 }", "-1", "true", "'c'", "{ A < B }", "\"s\"", "u8, 3", "{ f::<u8>() }"])
        if k < 37:
            self.u("macro type"); return self.c(["m!(x)", "a::m![x, y]", "m!(a < b)"])
        if k < 38:
            self.u("turbofish"); return "Vec::<%s>" % t()
        if k < 39 and r.random() < 0.4:
            self.u("association bound")
            return self.c(["Box<dyn Tr<Item: %s>>", "Foo<%s, Item: Clone + Copy>", "Foo<fn() -> u8, Item: Tr<%s>>", "Foo<%s, fn(u8) -> u8, Item: Copy>", "a::Foo<Item<%s>: Copy, Out = fn() -> u8>", "Foo<'a, 3, fn() -> %s, Item: Fn(u8) -> u8 + 'a, Out: Copy>"]) % t()
        if k < 39:
            self.u("association argument"); return "Box<dyn Iterator<Item = %s>>" % t()
        self.u("deep"); return "Option<Option<Option<%s>>>" % t()

    def bounds(self, lifetime=False):
        r = self.r
        if lifetime:
            return " + ".join(self.lt() for _ in range(r.randrange(1, 3)))
        b = []
        for _ in range(self.c([1, 1, 2, 3])):
            b.append(self.c([self.c(TRAITS), self.c(TRAITS), "?Sized", "Sized", self.lt(), "?core::marker::Sized", "?::core::marker::Sized", "for<'z> ::a::Tr<&'z u8>", "(::a::Tr)", "Tr<Item: ::a::Tr>", "a::Tr<'static, Item: ::a::Tr + ?Sized, Out = fn() -> ::a::B>"]))
        # `?Sized` and `Sized` once at most
        out = []
        for x in b:
            if x.endswith("Sized") and any(y.endswith("Sized") for y in out):
                continue
            out.append(x)
        return " + ".join(out) + (" +" if r.random() < 0.05 else "")

    def generics(self):
        r = self.r
        self.lts, self.tys = [], []
        if r.random() < 0.45:
            return ""
        self.u("generics")
        out = []
        nl, nt, nc = self.c([0, 0, 1, 2]), self.c([0, 1, 1, 2, 3]), self.c([0, 0, 0, 1, 2])
        for i in range(nl):
            n = self.c(["'a", "'a", "'long_one", "'nonstatic", "'x_", "'_x", "'A", "'De_9", "'ünï"]) if not i else self.c(["'b", "'b", "'statics", "'a_static", "'static_", "'b2", "'B", "'Static", "'STATIC"])
            out.append(n + (": " + self.bounds(True) if i and r.random() < 0.5 else self.c(["", "", ":"])))
            self.lts.append(n)
        rest = []
        for i in range(nt):
            n = LETTERS[i]
            s = n
            if r.random() < 0.6:
                s += ": " + self.bounds() if r.random() < 0.92 else ":"
            if r.random() < 0.2:
                self.u("default"); s += " = " + self.ty(1)
            rest.append(s)
            self.tys.append(n)
        for i in range(nc):
            self.u("const parameter")
            rest.append("const %s: %s%s" % (["N", "M"][i], self.c(["usize", "bool", "char", "i32", "a::B"]), self.c(["", "", " = 3", " = -1", " = { 1 + 2 }", " = true", " = 'c'", " = { N }"])))
        r.shuffle(rest)
        out += rest
        if not out and r.random() < 0.5:
            return "<>"
        if not out:
            return ""
        return "<%s%s>" % (", ".join(out), self.c(["", "", ","]))

    def where(self):
        r = self.r
        if r.random() < 0.6:
            return ""
        self.u("where")
        ps = []
        for _ in range(self.c([0, 1, 1, 2, 3])):
            k = r.randrange(6)
            if k == 0 and self.lts:
                ps.append("%s: %s" % (self.c(self.lts + ["'static"]), self.bounds(True)))
            elif k == 1:
                self.u("for predicate"); ps.append("for<'z> %s: %s" % (self.c(["T", "&'z T", "Vec<T>"]), self.bounds()))
            elif k == 2:
                self.u("predicate on a type"); ps.append("%s: %s" % (self.ty(2), self.bounds()))
            elif k == 3:
                ps.append(self.c(["T:", "T: Sized", "str:", "[u8]:", "Vec<T>:", "Self: Sized", "T: ?Sized", "<T as Tr>::Out: Tr<{ 1 }>", "[u8; { N + 1 }]:", "Foo<{ N + 1 }>: Sized", "Foo<fn() -> T, Item: Copy>: Sized", "fn(T) -> T: Copy", "Foo<Item: Copy, Out: Fn() -> u8>:"]))
            else:
                ps.append("%s: %s" % (self.c((self.tys or ["T"]) + ["T::Item", "Self"]), self.bounds()))
        return " where " + ", ".join(ps) + (self.c(["", ","]) if ps else "")

    def many(self, usual):
        """how many: sometimes more than one digit of them"""
        if self.r.random() < 0.03:
            self.u("ten or more of a kind")
            return self.r.randrange(10, 24)
        return self.c(usual)

    def named(self, n=None):
        n = self.many([0, 1, 1, 2, 3, 5]) if n is None else n
        fs = ["%s%s%s%s%s" % (self.meta(0.25), self.vis(), self.c(NAMES), self.c([": ", ": ", " : "]), self.ty(3)) for _ in range(n)]
        return "{ %s%s }" % (", ".join(fs), self.c(["", ","]) if fs else "")

    def tuple(self):
        fs = ["%s%s%s" % (self.meta(0.25), self.vis(), self.ty(3)) for _ in range(self.many([0, 1, 1, 2, 3]))]
        return "(%s%s)" % (", ".join(fs), self.c(["", ","]) if fs else "")

    def struct(self):
        self.u("struct")
        head = "%s%sstruct %s%s" % (self.meta(), self.vis(), self.c(UP), self.generics())
        k = self.r.randrange(5)
        if k < 2:
            self.u("struct {}"); return head + self.where() + " " + self.named()
        if k < 4:
            self.u("struct ()"); return head + self.tuple() + self.where() + ";"
        self.u("struct ;"); return head + self.where() + ";"

    def enum(self):
        self.u("enum")
        head = "%s%senum %s%s" % (self.meta(), self.vis(), self.c(UP), self.generics())
        w = self.where()
        return "%s%s %s" % (head, w, self.values())

    def values(self):
        vs = []
        for i in range(self.many([0, 1, 2, 3, 5])):
            k = self.r.randrange(4)
            body = "" if k < 2 else self.tuple() if k == 2 else " " + self.named()
            disc = ""
            if self.r.random() < 0.25:
                self.u("discriminant")
                disc = " = " + self.c(["0", "1", "42", "-1", "-7", "9223372036854775807", "255"])
            vs.append("%s%s%s%s" % (self.meta(0.2), self.c(UP), body, disc))
        return "{ %s%s }" % (", ".join(vs), self.c(["", ","]) if vs else "")

    def fn(self):
        self.u("fn")
        r = self.r
        s = self.meta() + self.vis()
        for k, q in (("async ", 0.15), ("const ", 0.15), ("unsafe ", 0.15)):
            if r.random() < q:
                self.u(k); s += k
        if r.random() < 0.15:
            self.u("extern"); s += self.c(["extern ", 'extern "C" ', 'extern "system" ', 'extern r"C" '])
        s += "fn %s%s" % (self.c(NAMES), self.generics())
        s += self.params()
        if r.random() < 0.5:
            self.u("return type"); s += self.c([" -> ", "->"]) + self.ty(3, "fn")
        s += self.where() + " "
        return s + self.c(["{}", "{ a + b }", "{ let x: Vec<u8> = f::<u8>(); x.map(|y| y < 3 && z > 4) }", "{ #![allow(x)] match x { _ => {} } }", "{ \"}\" ; '}' ; m!{ a } }", "{ where_ }"])

    def params(self):
        r, ps = self.r, []
        if r.random() < 0.3:
            self.u("self"); ps.append(self.c(["self", "mut self", "&self", "&mut self", "&'a self", "&'a mut self", "self: Box<Self>", "self: &Self", "mut self: std::pin::Pin<&mut Self>"]))
        for _ in range(self.many([0, 1, 1, 2, 4])):
            ps.append("%s%s%s%s" % (self.c(["", "", "mut "]), self.c(NAMES + ["_"]), self.c([": ", ": ", " : "]), self.ty(3, "fn")))
        return "(%s%s)" % (", ".join(ps), self.c(["", ","]) if ps else "")

    def supported(self):
        return self.c([self.struct, self.enum, self.fn])()

    def type_alone(self):
        """a type, and another one (None: the same text again)"""
        self.generics()
        def one():
            k = self.r.randrange(12)
            if k == 0:
                self.u("alone: dyn"); return "%sdyn %s" % (self.c(["", "&", "&mut ", "&'a "]), self.bounds())
            if k == 1:
                self.u("alone: impl"); return "%simpl %s" % (self.c(["", "", "&", "&'static mut "]), self.bounds())
            if k == 2:
                self.u("alone: argument"); return "%s = %s" % (self.c(["Item", "r#type", "A<'a>", "Out<u8, T>"]), self.ty(3, "fn"))
            if k == 3:
                self.u("alone: lifetime"); return self.lt()
            if k == 4:
                self.u("alone: bounds"); return self.bounds()
            if k == 5:
                self.u("alone: path")
                return "%s%s%s" % (self.c(["", "::", "crate::", "self::super::", "a::b::c::d::"]), self.c(UP), self.c(["", "<%s>" % ", ".join(self.ty(2, "fn") for _ in range(self.r.randrange(1, 5)))]))
            return self.ty(4, "fn")
        a = one().rstrip(" +")
        k = self.r.randrange(4)
        if k == 0:
            return a, None
        if k == 1:
            return a, one().rstrip(" +")
        # nearly the same
        import re
        w = re.findall(r"b?r(?:#*)\".*?\"#*|b?\"(?:\\.|[^\"\\])*\"|b?'(?:\\.|[^'\\])'|'(?:r#)?\w+|(?:r#)?\w+|::|->|\W", a)
        i = self.r.randrange(len(w))
        w[i] = self.c([lambda x: x + "x" if re.match(r"[^\W\d]", x) else x, lambda x: "mut " + x, lambda x: "a::" + x, lambda x: x, lambda x: "&" + x if x != " " else x, lambda x: "u9" if re.match(r"[a-zA-Z]", x) else x])(w[i])
        b = "".join(w)
        return a, b

    def part(self):
        """one part of a declaration, as (kind, text)"""
        for _ in range(50):
            k = self.c(["generics", "where", "fields", "values", "params", "meta", "struct", "enum", "fn"])
            g = self.generics()
            if k == "generics":
                t = g
            elif k == "where":
                t = self.where()
            elif k == "fields":
                t = self.c([self.named, self.tuple, self.named, self.tuple, lambda: ";"])()
            elif k == "values":
                t = self.values()
            elif k == "params":
                t = self.params()
            elif k == "meta":
                t = self.meta(0.8)
            else:
                t = {"struct": self.struct, "enum": self.enum, "fn": self.fn}[k]()
            if t.strip():
                self.u("part " + k)
                return k, t
        return "fields", "{}"

    def odd(self):
        """forms that are not promised: an error, or all of it kept"""
        k = self.r.randrange(12)
        n, t = self.c(UP), self.ty(2)
        return self.c([
            lambda: "fn f((a, b): (u8, %s)) {}" % t, lambda: "fn f(#[x] a: %s) {}" % t, lambda: "fn f(&x: &%s) -> %s {}" % (t, t), lambda: "fn f(x: %s);" % t, lambda: "fn f(S { a, .. }: S) {}",
            lambda: "enum %s { A = 1 + 2, B }" % n, lambda: "enum %s { A = 0x10, B = 1u8 }" % n, lambda: "enum %s { A = { 3 }, B = -(1) }" % n, lambda: "enum %s { A = X, B(%s) = 1_000 }" % (n, t),
            lambda: "enum %s { A = 1 << 3, B = 2 }" % n, lambda: "enum %s { pub A(%s), B }" % (n, t), lambda: "enum %s { A = 9223372036854775808 }" % n, lambda: "enum %s { A = 1 == 2, B }" % n,
            lambda: "union %s { a: %s, b: u8 }" % (n, t), lambda: "trait %s { fn f(&self); }" % n, lambda: "impl %s { fn f() {} }" % n, lambda: "impl Tr<%s> for %s {}" % (t, n), lambda: "type %s = %s;" % (n, t),
            lambda: "const X: %s = 3;" % t, lambda: "static X: %s = 3;" % t, lambda: "mod m { struct S; }", lambda: "use a::{b, c};", lambda: "extern crate x;", lambda: "extern \"C\" { fn f(); }",
            lambda: "macro_rules! m { () => { struct S; } }", lambda: "m! { struct S; }", lambda: "pub const fn", lambda: "struct %s" % n, lambda: "enum %s" % n, lambda: "fn f", lambda: "struct %s<T" % n, lambda: "struct %s<%s> {}" % (n, "#[a] T: Tr"),
            lambda: "struct %s where T: A, for<'a: 'b> U: B { a: %s }" % (n, t), lambda: "fn f(x: u8, ...) {}", lambda: "async fn f() -> impl Future<Output = %s> + 'static { x }" % t, lambda: "unsafe extern fn f() where {}",
            lambda: "pub(crate) safe fn f() {}", lambda: "default fn f() {}", lambda: "struct %s { a: %s = 3 }" % (n, t), lambda: "struct %s { pub a }" % n, lambda: "struct %s { unsafe a: %s }" % (n, t), lambda: "struct %s(%s) { }" % (n, t),
            lambda: "pub struct;", lambda: "auto trait X {}", lambda: "struct %s { a: %s, .. }" % (n, t), lambda: "const unsafe async fn f() {}", lambda: "gen fn f() {}", lambda: "fn f<'a>(&'a mut self, _: &'a %s) -> Option<&'a u8> where Self: 'a { None }" % t,
        ])()

    def garbage(self):
        """a declaration with tokens removed, doubled, exchanged"""
        import re
        s = self.supported()
        t = [m.group(0) for m in re.finditer(r"b?r(#*)\".*?\"\1(?!#)|\"(?:\\.|[^\"\\])*\"|b?'(?:\\.|[^'\\])'|'(?:r#)?\w+|\d+\.\d[\w-]*|\d+[eE]-\d+|(?:r#)?[\w]+|::|->|=>|\S", s)]
        for _ in range(self.r.randrange(1, 4)):
            if not t:
                break
            i, j = self.r.randrange(len(t)), self.r.randrange(len(t))
            k = self.r.randrange(5)
            if k == 0:
                del t[i]
            elif k == 1:
                t.insert(i, t[j])
            elif k == 2:
                t[i], t[j] = t[j], t[i]
            elif k == 3:
                t.insert(i, self.c(["<", ">", "=", ":", ",", "#", "-", "->", "'a", "pub", "where", "struct", "()", "{}", "[]", "::", "+", "&", "?", ";", "const", "1", "\"s\"", "fn", "enum", "Fn()", "dyn", "impl"]))
            else:
                t = t[:i] if self.r.random() < 0.5 else t[i:]
        # the delimiters have to fit
        out, st = [], []
        for x in t:
            if x in OPEN:
                st.append(OPEN[x])
            elif x in (")", "]", "}"):
                if not st or st[-1] != x:
                    continue
                st.pop()
            out.append(x)
        return " ".join(out + st[::-1])
