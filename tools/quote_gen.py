"""Templates for quote!, and the tokens each of them has to produce.

A template is a list of nodes; a node knows its source text and, for given values of the variables, its tokens.
Tokens: "i:name", "l:literal", "p:c" ("p:c+" inside of an operator of several characters), "(" ")" "[" "]" "{" "}"."""
import random

OPS = ["->", "=>", "<=", ">=", "!=", "&&", "||", "==", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", ">>", "<<", ">>=", "<<=", "..", "...", "..=", "::"]
ONE = list("&:+-*/=><,!?@^|%;") + ["~"]     # no dot: "1 ." is printed as "1." by the compiler itself
WORDS = ["a", "b", "x9", "_y", "fn", "pub", "struct", "self", "Self", "crate", "true", "false", "async", "await", "dyn", "union", "where", "let", "loop", "if", "else", "match", "in", "for", "impl", "r#type", "r#fn",
         "größe", "Vec", "T", "TokenStream", "macro_rules", "auto", "static", "mut", "move", "ref", "literal", "params", "scope", "span", "options", "define", "_token", "_span", "token", "e", "i", "s", "_i", "_e", "_hashmap", "unsafe", "extern", "type", "try", "yield", "super", "raw", "b1", "r"]
LITS = ["0", "1", "42u8", "0xffu32", "0b1010", "0o17", "1_000", "1.5", "2.5e-3", "1e3f64", "7.0f32", '"s"', '"a b, # (c"', '"\\n\\u{1F600}\\""', 'r"raw\\"', 'r#"a "q" b"#', 'r##"x"#y"##', 'b"bytes\\x00"', "b'x'", "'c'", "'\\''", "'\\u{e9}'", "'é'", '""',
        'br"raw"', 'c"c str"', "'\"'", "'#'", "170141183460469231731687303715884105727u128", '"#a #(b)*"', '"é\U0001F496"', '"\\\\"', "'('", '"//"', '"/*"']
LIFES = ["'a", "'static", "'_", "'r#type"]


def op(s):
    return ["p:%s+" % c for c in s[:-1]] + ["p:" + s[-1]]


class Text:
    """fixed tokens"""
    def __init__(self, src, toks):
        self.src, self.toks = src, toks

    def ev(self, env):
        return self.toks


class Group:
    def __init__(self, o, c, inner, pre="", pretoks=()):
        self.src = "%s%s %s %s" % (pre, o, text(inner), c)
        self.o, self.c, self.inner, self.pre = o, c, inner, list(pretoks)

    def ev(self, env):
        return self.pre + [self.o] + ev(self.inner, env) + [self.c]


class Var:
    """#name, #(expr): f(env) gives the tokens"""
    def __init__(self, src, f):
        self.src, self.ev = src, f


def text(nodes):
    return " ".join(n.src for n in nodes)


def ev(nodes, env):
    out = []
    for n in nodes:
        out += n.ev(env)
    return out


def num(n):
    return (["p:-"] if n < 0 else []) + ["l:%d" % abs(n)]


# ---------------------------------------------------------------- values

class Gen:
    K = 5     # sets of values for each template

    def __init__(self, seed, index):
        self.r = random.Random("quote/%d/%d" % (seed, index))
        self.used = set()
        self.lets, self.env = [], [{} for _ in range(self.K)]
        self.kinds = {}
        self.taken = set()
        self.n = 0
        self.size = 0
        self.raw = 0      # inside of @scope or @params: no plain '#'

    def u(self, k):
        self.used.add(k)

    def c(self, xs):
        return self.r.choice(xs)

    def name(self):
        self.n += 1
        if self.r.random() < 0.1:
            # names that the macros use themselves
            n = self.c(["_token", "_span", "_e", "_i", "x", "s", "_hashmap", "_flag", "_iter", "input", "_input", "token", "_k", "_v", "e", "_outer", "_taken", "_g", "vec", "tmp_v"])
            if n not in self.taken:
                self.taken.add(n)
                return n
        return self.c(["v%d", "_v%d", "name%d", "r#v%d"] if self.r.random() < 0.3 else ["v%d"]) % self.n

    # text whose tokens are known
    def words(self, most=3, d=1):
        """-> text, tokens; may be empty"""
        out = [self.plain(d) for _ in range(self.c([0, 1, 1, 1, 2, most]))]
        return text(out), ev(out, {})

    def plain(self, d=2):
        """a node of fixed tokens"""
        r = self.r
        k = r.randrange(24)
        if k < 8:
            w = self.c(WORDS)
            return Text(w, ["i:" + w])
        if k < 10:
            return Text("_", ["i:_"])
        if k < 13:
            l = self.c(LITS)
            return Text(l, ["l:" + l])
        if k < 15:
            o = self.c(OPS)
            return Text(o, op(o))
        if k < 18:
            o = self.c(ONE)
            return Text(o, ["p:" + o])
        if k < 19 and r.random() < 0.4:
            return self.c([Text("a . b", ["i:a", "p:.", "i:b"]), Text("x9.b1 ( )", ["i:x9", "p:.", "i:b1", "(", ")"]), Text(". await", ["p:.", "i:await"]) if not self.raw else Text("r.await", ["i:r", "p:.", "i:await"])])
        if k < 19:
            l = self.c(LIFES)
            return Text(l, ["p:'+", "i:" + l[1:]])
        if d > 0:
            o, c = self.c(["()", "[]", "{}"])
            inner = [self.plain(d - 1) for _ in range(r.randrange(4))]
            return Text("%s %s %s" % (o, text(inner), c), [o] + ev(inner, {}) + [c])
        return Text("z", ["i:z"])

    def shown(self):
        """a value that is written as text: -> (rust literal of type &'static str, tokens)"""
        k = self.r.randrange(10)
        if k < 5:
            w = self.c([w for w in WORDS])
            return rs(w), ["i:" + w]
        if k < 6:
            t, v = self.c([("", []), (" ", []), ("/* c */ a // d\n", ["i:a"]), ("a\n b", ["i:a", "i:b"]), ("_", ["i:_"]), ("-5", ["p:-", "l:5"]), ("a::<B>()", ["i:a"] + op("::") + ["p:<", "i:B", "p:>", "(", ")"]),
                           ("'a", ["p:'+", "i:a"]), ("1", ["l:1"]), ("x1y", ["i:x1y"]), ("1x", ["l:1x"]), ("a-b", ["i:a", "p:-", "i:b"]), ("\"q\\\"\"", ["l:\"q\\\"\""])])
            return rs(t), v
        t, v = self.words()
        return rs(t), v

    def new(self, kind):
        """a variable with a value in each set"""
        n = self.name()
        r = self.r
        vals, py, form = [], [], "[%s][k]"
        how = {"s": self.c(["str", "str", "String", "int", "float", "bool", "char", "stream", "ident", "ref", "box"])}.get(kind)
        for i in range(self.K):
            if kind == "s":
                if how in ("str", "String", "stream", "ref", "box"):
                    a, t = self.shown()
                    vals.append(a)
                elif how == "int":
                    x = self.c([0, 1, -1, 7, 255, -128, r.randrange(-10 ** 9, 10 ** 9)])
                    vals.append("%di64" % x); t = num(x)
                elif how == "float":
                    a, t = self.c([("1.5", ["l:1.5"]), ("2.0", ["l:2"]), ("-0.25", ["p:-", "l:0.25"]), ("100.0", ["l:100"]), ("0.1", ["l:0.1"])])
                    vals.append(a + "f64")
                elif how == "bool":
                    b = r.random() < 0.5
                    vals.append("true" if b else "false"); t = ["i:true" if b else "i:false"]
                elif how == "char":
                    x = self.c("abzT_")
                    vals.append("'%s'" % x); t = ["i:" + x]
                elif how == "ident":
                    w = self.c([w for w in WORDS if not w.startswith("r#")])
                    vals.append('"%s"' % w); t = ["i:" + w]
                py.append(("s", t))
            elif kind == "b":
                b = [True, False, r.random() < 0.5, r.random() < 0.5, r.random() < 0.5][i % 5]
                vals.append("true" if b else "false"); py.append(("b", b))
            elif kind == "n":
                x = r.randrange(5)
                vals.append("%dusize" % x); py.append(("n", x))
            elif kind == "o":
                if r.random() < 0.45:
                    vals.append("None"); py.append(("o", None))
                else:
                    a, t = self.shown()
                    vals.append("Some(%s)" % a); py.append(("o", ("s", t)))
            elif kind == "l":
                a, p = self.strs(self.c([0, 1, 2, 3, 5]))
                vals.append(a); py.append(("l", p))
            elif kind == "rows":
                rows = [self.row() for _ in range(self.c([0, 1, 2, 3]))]
                vals.append("&[%s]" % ", ".join(x for x, _ in rows)); py.append(("l", [y for _, y in rows]))
        ty = {"o": "[Option<&'static str>; %d]" % self.K, "l": "[&'static [&'static str]; %d]" % self.K, "rows": "[&'static [Row]; %d]" % self.K}.get(kind)
        e = ("[%s]" % ", ".join(vals))
        if ty:
            self.lets.append("let %s: %s = %s; let %s = %s[k];" % (n, ty, e, n, n))
        else:
            e += "[k]"
            if kind == "s":
                e = {"String": "%s.to_string()", "stream": "%s.parse::<Toks>().unwrap()", "ident": "proc_macro::Ident::new(%s, Span::call_site())", "ref": "&%s.to_string()", "box": "Box::new(%s)"}.get(how, "%s") % e
            self.lets.append("let %s = %s;" % (n, e))
        for i in range(self.K):
            self.env[i][n] = py[i]
        self.kinds[n] = (kind, how)
        return n

    def strs(self, n):
        xs = [self.shown() for _ in range(n)]
        return "&[%s]" % ", ".join(a for a, _ in xs), [("s", t) for _, t in xs]

    def row(self):
        a, ta = self.shown()
        b, tb = self.shown()
        on = self.r.random() < 0.5
        o, po = ("None", None) if self.r.random() < 0.5 else (lambda x: ("Some(%s)" % x[0], ("s", x[1])))(self.shown())
        l, pl = self.strs(self.r.randrange(4))
        n = self.r.randrange(4)
        return ("Row { name: %s, ty: %s, on: %s, opt: %s, list: %s, n: %d }" % (a, b, "true" if on else "false", o, l, n),
                ("row", {"name": ("s", ta), "ty": ("s", tb), "on": ("b", on), "opt": ("o", po), "list": ("l", pl), "n": ("n", n)}))

    # a source of a kind: -> (rust text, is a plain name, f(env))
    def pick(self, kind, scope, plain=None):
        """scope: [(name, kind)] of the variables of enclosing repetitions"""
        r = self.r
        if plain is None:
            plain = r.random() < 0.6
        inner = [n for n, k in scope if k == kind]
        rows = [n for n, k in scope if k == "row"]
        if plain:
            if inner and r.random() < 0.75:
                n = self.c(inner)
            else:
                old = [n for n, (k, _) in self.kinds.items() if k == kind]
                n = self.c(old) if old and r.random() < 0.5 else self.new(kind)
            return n, True, lambda env, n=n: env[n]
        if rows and r.random() < 0.7:
            n = self.c(rows)
            if kind == "s":
                f = self.c(["name", "ty"])
                return "%s.%s" % (n, f), False, lambda env: env[n][1][f]
            f = {"b": "on", "o": "opt", "l": "list", "n": "n"}.get(kind)
            if f:
                return "%s.%s" % (n, f), False, lambda env: env[n][1][f]
        if kind == "s":
            k = r.randrange(9)
            if k == 0:
                n, _, g = self.pick("n", scope, True); d = r.randrange(1, 9)
                return self.c(["%s + %d", "{ let q = %s; q + %d }", "add(%s, %d)"]) % (n, d), False, lambda env: ("s", num(g(env)[1] + d))
            if k == 1:
                n, _, g = self.pick("b", scope, True)
                a, ta = self.shown(); b, tb = self.shown()
                return self.c(["if %s { %s } else { %s }", "match %s { true => %s, false => %s }"]) % (n, a, b), False, lambda env: ("s", ta if g(env)[1] else tb)
            if k == 2:
                n, _, g = self.pick("n", scope, True)
                return 'format!("a{} , ({0})", %s)' % n, False, lambda env: ("s", ["i:a%d" % g(env)[1], "p:,", "("] + num(g(env)[1]) + [")"])
            if k == 3:
                n, _, g = self.pick("l", scope, True)
                return "%s.len()" % n, False, lambda env: ("s", num(len(g(env)[1])))
            if k == 4:
                a, ta = self.shown()
                return a, False, lambda env: ("s", ta)
            if k == 5:
                n, _, g = self.pick("l", scope, True)
                return '%s.first().unwrap_or(&"none")' % n, False, lambda env: g(env)[1][0] if g(env)[1] else ("s", ["i:none"])
            if k == 6:
                n, _, g = self.pick("o", scope, True)
                return '%s.unwrap_or("none")' % n, False, lambda env: g(env)[1] or ("s", ["i:none"])
            if k == 7:
                x = r.randrange(-50, 50)
                return "%d" % x, False, lambda env: ("s", num(x))
            n, _, g = self.pick("s", scope, True)
            return self.c(["&%s", "%s.to_string()", "%s.clone()", "(%s.to_string() + \" ;\").trim_end_matches(\" ;\")"]) % n, False, g
        if kind == "b":
            k = r.randrange(4)
            if k == 0:
                n, _, g = self.pick("n", scope, True); d = r.randrange(4)
                return "%s > %d" % (n, d), False, lambda env: ("b", g(env)[1] > d)
            if k == 1:
                n, _, g = self.pick("o", scope, True)
                return "%s.is_some()" % n, False, lambda env: ("b", g(env)[1] is not None)
            if k == 2:
                a, _, g = self.pick("b", scope, True); b, _, h = self.pick("b", scope, True)
                return "%s && !%s" % (a, b), False, lambda env: ("b", g(env)[1] and not h(env)[1])
            n, _, g = self.pick("l", scope, True)
            return "%s.is_empty()" % n, False, lambda env: ("b", not g(env)[1])
        if kind == "n":
            n, _, g = self.pick("l", scope, True)
            return "%s.len()" % n, False, lambda env: ("n", len(g(env)[1]))
        if kind == "o":
            k = r.randrange(4)
            n, _, g = self.pick("l", scope, True)
            if k == 0:
                return "%s.first()" % n, False, lambda env: ("o", g(env)[1][0] if g(env)[1] else None)
            if k == 1:
                return "%s.iter().last().map(|q| q.to_string())" % n, False, lambda env: ("o", g(env)[1][-1] if g(env)[1] else None)
            if k == 2:
                n, _, g = self.pick("o", scope, True)
                return "%s.as_ref()" % n, False, g
            n, _, g = self.pick("n", scope, True)
            return "%s.checked_sub(2)" % n, False, lambda env: ("o", ("s", num(g(env)[1] - 2)) if g(env)[1] >= 2 else None)
        if kind == "l":
            k = r.randrange(6)
            n, _, g = self.pick("l", scope, True)
            if k == 0:
                return "%s.iter().rev()" % n, False, lambda env: ("l", g(env)[1][::-1])
            if k == 1:
                return "%s.to_vec()" % n, False, g
            if k == 2:
                n, _, g = self.pick("n", scope, True)
                return "0..%s" % n, False, lambda env: ("l", [("s", num(i)) for i in range(g(env)[1])])
            if k == 3:
                return "%s.iter().skip(1).cloned()" % n, False, lambda env: ("l", g(env)[1][1:])
            if k == 4:
                n, _, g = self.pick("o", scope, True)
                return n, False, lambda env: ("l", [g(env)[1]] if g(env)[1] else [])
            return "%s.iter().map(|q| format!(\"[{}]\", q))" % n, False, lambda env: ("l", [("s", ["["] + x[1] + ["]"]) for x in g(env)[1]])
        n, _, g = self.pick(kind, scope, True)
        return n, False, g

    # ------------------------------------------------------------ templates

    def nodes(self, d, scope, most=5, least=0):
        out = []
        n = self.r.randrange(least, most + 1)
        while len(out) < n:
            out.append(self.node(d, scope))
        return out

    def sep(self, named):
        """a separator; some are part of another form behind a body with a name"""
        r = self.r
        k = r.randrange(10)
        if k < 5:
            s = self.c([",", ",", ";", "|", "&"])
            return s, ["p:" + s]
        if k < 8:
            o = self.c(["=>", "&&", "||", "::", "->", "..", "=="])
            return o, op(o)
        if k < 9:
            w = self.c(["and", "or", "r#type", "'x", "1", "\"s\""])
            return w, ["p:'+", "i:x"] if w == "'x" else ["l:" + w] if w[0] in "1\"" else ["i:" + w]
        if not named and r.random() < 0.5:
            s = self.c("+-/=.")
            if s == "/":
                return "/ ", ["p:/"]        # not the start of a comment
            return s, ["p:" + s]
        return "( a , )", ["(", "i:a", "p:,", ")"]

    def node(self, d, scope):
        r = self.r
        self.size += 1
        if self.size > 45:
            return Text("z", ["i:z"])
        k = r.randrange(34)
        if d <= 0:
            k %= 14
        if k < 7:
            return self.plain(1)
        if k < 8:
            inner = self.nodes(d - 1, scope, 3)
            if r.random() < 0.5:
                w = self.c(["m", "vec", "a"])
                o, c = self.c(["()", "[]", "{}"])
                e = self.c(["", " ;"])
                self.u("macro call")
                g = Group(o, c, inner, w + " ! ", ["i:" + w, "p:!"])
                return Seq([g, Text(";", ["p:;"])]) if e else g
            b = self.c(["#", "#!"])
            self.u("attribute")
            return Group("[", "]", inner, b, ["p:" + x for x in b])
        if k < 9 and not self.raw:
            self.u("##")
            return Text("##", ["p:#"])
        if k < 12:
            n, _, f = self.pick("s", scope, True)
            self.u("#var"); return Var("#" + n, lambda env: f(env)[1])
        if k < 14:
            e, _, f = self.pick("s", scope, False)
            if r.random() < 0.2:
                e, _, f = self.pick("s", scope, True)
            self.u("#(expr)"); return Var("#(%s)" % e, lambda env: f(env)[1])
        if k < 17:
            o, c = self.c(["()", "[]", "{}"])
            g = Group(o, c, self.nodes(d - 1, scope, 4))
            return Seq([g, Text(";", ["p:;"])]) if r.random() < 0.2 else g
        if k < 20:
            e, name, f = self.pick("b", scope)
            src = "#%s" % e if name else "#(%s)" % e
            pm = self.c("+-")
            body = self.nodes(d - 1, scope, 4, 1)
            self.u("#(#bool:..)" + pm if name else "#(#(expr):..)" + pm)
            return Var("#(%s: %s)%s%s" % (src, text(body), self.c(["", " "]), pm), lambda env: ev(body, env) if f(env)[1] == (pm == "+") else [])
        if k < 23:
            e, name, f = self.pick("o", scope)
            src = "#%s" % e if name else "#(%s)" % e
            if r.random() < 0.35:
                self.u("#(#opt)?" if name else "#(#(expr))?")
                return Var("#(%s)?" % src, lambda env: f(env)[1][1] if f(env)[1] else [])
            x = self.name() if r.random() < 0.8 else "_"
            body = self.nodes(d - 1, scope + ([] if x == "_" else [(x, "s")] * 2), 4, 1)
            self.u("#(#opt:%s ..)?" % ("_" if x == "_" else "x") if name else "#(#(expr):%s ..)?" % ("_" if x == "_" else "x"))
            return Var("#(%s:%s %s)%s?" % (src, x, text(body), self.c(["", " "])), lambda env: ev(body, dict(env, **{x: f(env)[1]})) if f(env)[1] else [])
        if k < 31:
            return self.rep(d, scope)
        return self.modifier(d, scope)

    def rep(self, d, scope):
        r = self.r
        kind = self.c(["l", "l", "rows"])
        e, name, f = self.pick(kind, scope)
        src = "#%s" % e if name else "#(%s)" % e
        star = self.c(["*", " *"])
        base = "#(#iter" if name else "#(#(expr)"
        if kind == "l" and r.random() < 0.45:
            k = r.randrange(3)
            if k == 0:
                self.u(base + ")*")
                return Var("#(%s)%s" % (src, star), lambda env: sum((x[1] for x in f(env)[1]), []))
            s, st = self.sep(False)
            if k == 1:
                self.u(base + ") sep *")
                return Var("#(%s)%s%s" % (src, s if r.random() < 0.5 and not s[0].isalnum() else " %s " % s, star), lambda env: join([x[1] for x in f(env)[1]], st))
            self.u(base + " sep)*")
            return Var("#(%s %s)%s" % (src, s, star), lambda env: sum((x[1] + st for x in f(env)[1]), []))
        x = self.name() if r.random() < 0.85 else "_"
        body = self.nodes(d - 1, scope + ([] if x == "_" else [(x, "row" if kind == "rows" else "s")] * 3), 5, 1)

        def each(env):
            return [ev(body, dict(env, **({} if x == "_" else {x: v}))) for v in f(env)[1]]
        if r.random() < 0.4:
            self.u(base + (":_ ..)*" if x == "_" else ":x ..)*"))
            return Var("#(%s:%s %s)%s" % (src, x, text(body), star), lambda env: sum(each(env), []))
        s, st = self.sep(True)
        self.u(base + (":_ ..) sep *" if x == "_" else ":x ..) sep *"))
        return Var("#(%s:%s %s) %s %s" % (src, x, text(body), s, star), lambda env: join(each(env), st))

    # ------------------------------------------------------------ modifiers

    def modifier(self, d, scope):
        k = self.r.randrange(3)
        if k == 0:
            s, t = self.literal()
            self.u("#(@literal:)"); return Var("#(@literal: %s)" % s, lambda env: t)
        if k == 1:
            ps, body, f = self.params(d, scope)
            self.u("#(@params():)"); return Var("#(@params(%s): %s)" % (ps, body), f)
        self.u("#(@scope:)")
        s, f = self.scoped(d, scope)
        return Var("#(@scope: %s)" % s, f)

    def literal(self):
        """tokens that are copied, whatever they are"""
        out = []
        for _ in range(self.r.randrange(1, 7)):
            if not self.raw and self.r.random() < 0.4:
                out.append(self.c([Text("#v1", ["p:#", "i:v1"]), Text("#(#a)*", ["p:#", "(", "p:#", "i:a", ")", "p:*"]), Text("##", ["p:#", "p:#"]), Text("#[x]", ["p:#", "[", "i:x", "]"]), Text("#(a + 1)", ["p:#", "(", "i:a", "p:+", "l:1", ")"]),
                                   Text("#", ["p:#"]), Text("#(#o)?", ["p:#", "(", "p:#", "i:o", ")", "p:?"])]))
            else:
                out.append(self.plain(2))
        return text(out), ev(out, {})

    def block(self, names, d=2, most=5, least=0):
        """tokens with #name for the names that stand for something: -> nodes; names: {name: f(env)}"""
        out = []
        for _ in range(self.r.randrange(least, most + 1)):
            k = self.r.random()
            if names and k < 0.45:
                n = self.c(sorted(names))
                out.append(Var("#" + n, names[n]))
            elif d > 0 and k < 0.6:
                o, c = self.c(["()", "[]", "{}"])
                out.append(Group(o, c, self.block(names, d - 1, 4)))
            elif d > 0 and k < 0.65:
                out.append(Group("[", "]", self.block(names, d - 1, 3), "#", ["p:#"]))
            else:
                out.append(self.plain(1))
        return out

    def params(self, d, scope):
        names, ps = {}, []
        for _ in range(self.r.randrange(1, 4)):
            if self.r.random() < 0.5:
                n, _, f = self.pick("s", scope, True)
                if n in names:
                    continue
                ps.append(n)
                names[n] = lambda env, f=f: f(env)[1]
            else:
                e, _, f = self.pick("s", [x for x in scope if x[0] not in names], False)
                if e.endswith('(" ;")'):
                    e += ".to_string()"     # a temporary does not live as long as the parameter
                n = self.name()
                ps.append("%s%s%s" % (n, self.c(["=", " = "]), e))
                names[n] = lambda env, f=f: f(env)[1]
        body = self.block(names, least=1)
        return ", ".join(ps) + self.c(["", ","]), text(body), lambda env: ev(body, env)

    def scoped(self, d, scope):
        s = Scope(self, d, scope)
        return s.src(), s.run


def join(parts, sep):
    out = []
    for i, p in enumerate(parts):
        out += (sep if i else []) + p
    return out


class Seq:
    def __init__(self, ns):
        self.ns, self.src = ns, text(ns)

    def ev(self, env):
        return ev(self.ns, env)


class Scope:
    """the commands of a @scope: a list of (source, f(state)), where state has out, defs, env"""
    def __init__(self, g, d, scope):
        self.g, self.d, self.sc = g, d, scope
        self.cmds = []
        g.raw += 1
        self.fill({}, 2, g.r.randrange(2, 6))
        g.raw -= 1
        if not any(x.startswith("{") for x, _ in self.cmds):
            self.add("{ z }", lambda s: s.emit(["i:z"]))
        if g.r.random() < 0.15:
            g.u("#end"); self.add("#end", lambda s: None)

    def src(self):
        return " ".join(x for x, _ in self.cmds)

    def run(self, env):
        s = State(env)
        for _, f in self.cmds:
            f(s)
        return s.out

    def add(self, src, f):
        self.cmds.append((src, f))

    def fill(self, defs, d, n):
        """defs: what is certainly defined here: {name: None or number of arguments}"""
        g = self.g
        for _ in range(n):
            k = g.r.randrange(22)
            g.size += 2
            if k < 7:
                self.block(defs)
            elif k < 9:
                n_ = self.fresh(defs)
                ns = g.nodes(min(1, self.d - 1), self.sc, 3, 1)
                g.u("#define(x, ..)")
                self.add("#define(%s, %s)" % (n_, text(ns)), lambda s, n_=n_, ns=ns: s.on() and s.defs.__setitem__(n_, ev(ns, s.env)))
                defs[n_] = None
            elif k < 10:
                n_ = self.fresh(defs)
                g.u("#define(x)")
                self.add("#define(%s)" % n_, lambda s, n_=n_: s.on() and s.defs.__setitem__(n_, []))
                defs[n_] = None
            elif k < 12:
                n_ = self.fresh(defs)
                args = ["p%d" % i for i in range(g.c([1, 1, 2, 3, 0]))]
                body = g.block({a: (lambda env, a=a: env[a]) for a in args}, 1, 4, 1)
                g.u("#define(m(%s), ..)" % ", ".join(args))
                self.add("#define(%s(%s), %s)" % (n_, ", ".join(args), text(body)), lambda s, n_=n_, args=args, body=body: s.on() and s.macros.__setitem__(n_, (args, body)))
                defs[n_] = len(args)
            elif k < 13:
                g.u("#quote")
                ns = g.nodes(min(1, self.d - 1), self.sc, 4)
                self.add("#quote(%s)" % text(ns), lambda s, ns=ns: s.on() and s.emit(ev(ns, s.env)))
            elif k < 14:
                g.u("#include")
                b = self.uses(defs, 1)
                t = text(b)
                e = g.c(["%s.parse::<Toks>().unwrap()", "ts(%s)", "{ let q = %s; ts(q) }", "none(ts(%s))", "none(none(ts(%s)))"]) % rs(t)
                self.add("#include(%s)" % e, lambda s, b=b: s.on() and s.emit(ev(b, s)))
            elif k < 15:
                v = [n for n, (kk, _) in g.kinds.items() if kk == "count"]
                if not v:
                    v = [g.name()]
                    g.lets.append("let mut %s = 0;" % v[0]); g.kinds[v[0]] = ("count", None)
                    for e in g.env:
                        e[v[0]] = ("n", 0)
                g.u("#execute")
                # inside of a repetition the counter goes on counting: only used in the scope that counts
                x = g.r.randrange(1, 4)
                self.add("#execute(%s %s= %d)" % (v[0], g.c("+"), x), lambda s, n=v[0], x=x: s.on() and s.env["*count"].__setitem__(n, s.env["*count"].get(n, 0) + x))
                if g.r.random() < 0.7:
                    self.add("#quote(#%s)" % v[0], lambda s, n=v[0]: s.emit(num(s.env["*count"].get(n, 0))))
            elif k < 16:
                live = [n for n, a in defs.items() if a is None]
                if live:
                    n_ = g.c(live)
                    g.u("#undef")
                    self.add("#undef(%s)" % n_, lambda s, n_=n_: s.on() and s.defs.pop(n_, None))
                    defs.pop(n_)
            elif k < 20 and d > 0:
                self.cond(defs, d)
            else:
                self.each(defs)

    def fresh(self, defs):
        return self.g.c(["d1", "d2", "d3", "d4", "r#d5", "long_name"])

    def uses(self, defs, d=2):
        """tokens with the names defined and calls of the macros; evaluated with the state in place of the values"""
        g = self.g
        names = {n: (lambda s, n=n: s.value(n)) for n, a in defs.items() if a is None}
        b = g.block(names, d)
        for n, a in defs.items():
            if a is not None and g.r.random() < 0.5:
                acts = [g.block(names, 1, 3, 1) for _ in range(a)]
                acts = [[x for x in ns if not flat_comma(x)] or [Text("q", ["i:q"])] for ns in acts]
                for ns in acts:
                    if g.r.random() < 0.3:
                        # commas in angle brackets do not end an argument, arrows are not brackets
                        g.u("angle brackets and arrows in an argument")
                        ns.insert(g.r.randrange(len(ns) + 1), g.c([Text("A < B , C >", ["i:A", "p:<", "i:B", "p:,", "i:C", "p:>"]), Text("a -> b", ["i:a", "p:-+", "p:>", "i:b"]), Text("a => b", ["i:a", "p:=+", "p:>", "i:b"]),
                                                                   Text("M<V<i8>, W>", ["i:M", "p:<", "i:V", "p:<", "i:i8", "p:>", "p:,", "i:W", "p:>"]), Text("( a , b )", ["(", "i:a", "p:,", "i:b", ")"])]))
                g.u("#(m(..)) with %d" % a)
                b.insert(g.r.randrange(len(b) + 1), Var("#(%s(%s))" % (n, ", ".join(text(x) for x in acts)), lambda s, n=n, acts=acts: s.call(n, [ev(x, s) for x in acts])))
        return b

    def block(self, defs):
        b = self.uses(defs)
        self.add("{ %s }" % text(b), lambda s: s.on() and s.emit(ev(b, s)))

    def cond(self, defs, d):
        g = self.g
        k = g.r.randrange(4)
        if k < 2:
            e, _, f = g.pick("b", self.sc, g.r.random() < 0.5)
            g.u("#if")
            self.add("#if(%s)" % e, lambda s: s.push(lambda: f(s.env)[1]))
        else:
            n_ = self.fresh(defs)
            if n_ in defs and defs[n_] is not None:
                n_ = "other"
            g.u("#ifdef" if k == 2 else "#ifndef")
            self.add("#%s(%s)" % ("ifdef" if k == 2 else "ifndef", n_), lambda s: s.push(lambda: (n_ in s.defs) == (k == 2)))
        before = dict(defs)
        gone = set()

        def branch():
            mine = dict(before)
            if g.r.random() < 0.85:
                self.fill(mine, d - 1, g.r.randrange(1, 3))
            gone.update(n for n in before if n not in mine or mine[n] != before[n])
            gone.update(n for n in mine if n not in before)
        branch()
        for _ in range(g.c([0, 0, 1, 2])):
            e2, _, f2 = g.pick("b", self.sc, g.r.random() < 0.5)
            g.u("#elif")
            self.add("#elif(%s)" % e2, lambda s, f2=f2: s.elif_(lambda: f2(s.env)[1]))
            branch()
        if g.r.random() < 0.6:
            g.u("#else")
            self.add("#else", lambda s: s.elif_(lambda: True))
            branch()
        self.add("#endif", lambda s: s.stack.pop())
        for n in gone:
            defs.pop(n, None)

    def each(self, defs):
        g = self.g
        e, _, f = g.pick("l", self.sc, g.r.random() < 0.5)
        x = self.fresh(defs)
        named = g.r.random() < 0.75
        inner = {n: (lambda s, n=n: s.value(n)) for n, a in defs.items() if a is None}
        if named:
            if defs.get(x) is not None:
                return
            g.u("#foreach(iter, x)")
            inner[x] = lambda s: s.value(x)
            inner = dict([(x, inner[x])] + list(inner.items()))
        else:
            g.u("#foreach(iter)")
        blocks = [g.block(inner, 2, 4, 1) for _ in range(g.c([1, 1, 2]))]
        self.add("#foreach(%s%s)" % (e, ", " + x if named else ""), lambda s: None)
        for b in blocks:
            self.add("{ %s }" % text(b), lambda s, b=b: s.loop(x if named else None, [v[1] for v in f(s.env)[1]], b))
        self.add("#endfor", lambda s: None)


def flat_comma(n):
    """a comma or an angle bracket on the outside would end the argument of a macro"""
    t, d = n.src, 0
    if isinstance(n, Text):
        for x in n.toks:
            d += x in "([{"
            d -= x in ")]}"
            if d == 0 and x.rstrip("+") in ("p:,", "p:<", "p:>"):
                return True
        return False
    return isinstance(n, Var) and not isinstance(n, Group)


class State:
    def __init__(self, env):
        self.env, self.out, self.defs, self.macros, self.stack = env, [], {}, {}, []
        self.args = []

    def __getitem__(self, n):
        for a in self.args[::-1]:
            if n in a:
                return a[n]
        return self.env[n]

    def on(self):
        return all(x[0] for x in self.stack)

    def push(self, f):
        """the condition is only looked at where it matters"""
        v = bool(f())
        self.stack.append([v, v])

    def elif_(self, f):
        taken = self.stack[-1][1]
        v = not taken and bool(f())
        self.stack[-1] = [v, taken or v]

    def emit(self, toks):
        if self.on():
            self.out += toks

    def value(self, n):
        # nothing is looked at in a branch that is not taken
        return self.defs.get(n, [])

    def call(self, n, acts):
        if n not in self.macros:
            return []
        args, body = self.macros[n]
        self.args.append(dict(zip(args, acts)))
        r = ev(body, self)
        self.args.pop()
        return r

    def loop(self, x, vals, b):
        if not self.on():
            return
        old = self.defs.get(x)
        for v in vals:
            if x:
                self.defs[x] = v
            self.out += ev(b, self)
        if x:
            if old is None:
                self.defs.pop(x, None)
            else:
                self.defs[x] = old


def rs(s):
    """a Rust string literal"""
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")


def template(seed, index):
    """-> (body of a function with parameter k, [expected tokens for each k], features, template)"""
    g = Gen(seed, index)
    r = g.r
    k = r.randrange(26)
    mixed = False
    if k > 24:
        l = g.new("l")
        src = "@scope: " + r.choice(["{ a } #else { b } #endif", "{ a } #elif(true) { b } #endif", "{ a } #endif", "#if(true) { a } #endif #endif", "#if(false) { a } #endif #else { b } #endif", "#endfor { a }", "#foreach(L, x) { #x } #endfor #endfor",
                                      "#foreach(L, x) #foreach(L, y) { #x #y } #endfor #endfor", "#foreach(L) #foreach(L, y) { #y } #endfor", "#foreach(L, x) #define(d, a) { #x } #endfor", "#foreach(L, x) #define(d) { #x } #endfor",
                                      "#foreach(L, x) #define(d(p), a) { #x } #endfor", "#foreach(L, x) { #x } #quote(a) #endfor", "#foreach(L, x) { #x } #include(ts(\"a\")) #endfor", "#foreach(L, x) #execute(drop(1)) { #x } #endfor",
                                      "#foreach(L, x) #undef(x) { #x } #endfor", "#foreach(L, x) #ifdef(x) { #x } #endif #endfor", "#foreach(L, x) #ifndef(x) { #x } #endif #endfor", "#foreach(L, x) #if(true) { #x } #endif #endfor",
                                      "#if(true) #foreach(L, x) { #x } #else { a } #endfor #endif", "#if(true) #foreach(L, x) { #x } #elif(true) { a } #endfor #endif", "#if(true) #foreach(L, x) { #x } #endif { a } #endfor",
                                      "#define(m(p, q), #p #q) { #(m(a)) }", "#define(m(p), #p) { #(m(a, b)) }"]).replace("L", l)
        g.u("scopes that are refused")
        f = lambda env: "panic"
    elif k < 17:
        ns = g.nodes(3, [], 9, 1)
        src, f = text(ns), lambda env: ev(ns, env)
        if k == 0:
            mixed = r.random() < 0.6
            src = "@span(%s): %s" % ("Span::mixed_site()" if mixed else "Span::call_site()", src); g.u("@span")
        elif k == 1:
            mixed = True
            src = "@options(span(Span::mixed_site())): " + src; g.u("@options(span)")
        elif ns and ns[0].src.startswith("@"):
            src = "a " + src
            f = lambda env: ["i:a"] + ev(ns, env)
    elif k < 19:
        src, t = g.literal()
        f = lambda env: t
        h = g.c(["@literal", "@options(literal)", "@options(span(Span::call_site()), literal)", "@options(literal, span(Span::mixed_site()))"])
        mixed = "mixed" in h
        src = h + ": " + src; g.u(h)
    elif k < 21:
        ps, body, f = g.params(2, [])
        h = g.c(["@params(%s)", "@options(params(%s))", "@options(span(Span::call_site()), params(%s))", "@options(params(%s), span(Span::mixed_site()))"])
        mixed = "mixed" in h
        src = h % ps + ": " + body; g.u(h % "..")
    else:
        s, f = g.scoped(2, [])
        h = g.c(["@scope", "@options(scope)", "@options(scope, span(Span::mixed_site()))"])
        mixed = "mixed" in h
        src = h + ": " + s; g.u(h)
    want = []
    for i in range(g.K):
        e = dict(g.env[i]); e["*count"] = {}
        want.append(f(e))
    o, c = r.choice(["()", "{}", "[]"])
    body = "%s let out: Toks = quote!%s %s %s; (out, %s)" % (" ".join(g.lets), o, src, c, "true" if mixed else "false")
    return body, want, g.used, src
