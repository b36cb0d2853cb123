"""Random braced structs with the derives on them, and the code that checks what the derives did."""
import random

PRELUDE = "#![allow(warnings)]\n#![recursion_limit = \"512\"]\n"
HOSTILE = ["Result", "Option", "String", "Vec", "HashMap", "Default", "Box", "Error", "ErrorKind", "Json", "ToJson", "FromJson", "LinkedList", "Self_", "u8", "str", "bool", "Ok_", "Iterator", "ToString", "Item", "Map"]
RAW = ["r#type", "r#fn", "r#match", "r#struct", "r#async", "r#dyn", "r#loop", "r#impl", "r#in", "r#box"]
NAMES = ["a", "b", "id", "name", "value", "x1", "_x", "__", "js", "map", "json", "obj", "other", "v", "k", "x", "std", "Ok", "Err", "to_json", "key", "ignore", "union", "default", "raw", "größe", "名前", "A", "String", "item", "ty", "meta", "fmt", "with_capacity", "add_option", "some_long_name_of_a_field", "f0", "i32", "macro_rules", "auto", "Self_"]
# (literal, value)
KEYS = [('"k"', "k"), ('"id"', "id"), ('"Name"', "Name"), ('"a b"', "a b"), ('""', ""), ('"{}"', "{}"), ('"{0}{x:?}"', "{0}{x:?}"), ('"a\\"b"', 'a"b'), ('"\\\\"', "\\"), ('"\\n\\t"', "\n\t"), ('"\\u{e9}\\u{1F600}"', "\u00e9\U0001F600"),
        ('"é"', "é"), ('"日本"', "日本"), ('r"raw"', "raw"), ('r"\\n"', "\\n"), ('r#"a"b"#', 'a"b'), ('r##"x"#y"##', 'x"#y'), ('r###"z"##"###', 'z"##'), ('"r#type"', "r#type"), ('"a.b"', "a.b"), ('"#0"', "#0"), ('"x\\x41"', "xA"), ('"two\\\n     lines"', "twolines"),
        ('"new\nline"', "new\nline"), ("\"it's\"", "it's"), ('"key"', "key"), ('"ignore"', "ignore"), ('"//"', "//"), ('"/*"', "/*"), ('"\\\'"', "'"), ('"%s"', "%s"), ('"-1"', "-1"), ('"\\0"', "\0"), ('"ends with quote\\""', 'ends with quote"'), ('"\\"starts"', '"starts'), ('r#""""#', '""'), ('"b\\\\"', "b\\"), ('"u8"', "u8")]
FIELD_ATTRS = ["/// a doc comment", "/// say \"hi\" \\ {} #[key = \"no\"]", "/** a block */", "/**/", "/***/", "#[doc = \"x\"]", "#[doc = r\"raw \\ doc\"]", "#[doc = r#\"quote \" here\"#]", "#[doc(hidden)]", "#[doc(alias = \"zz\")]", "#[doc(alias(\"p\", \"q\"))]",
               "#[allow(dead_code)]", "#[allow(unused, dead_code,)]", "#[cfg(all())]", "#[cfg(not(any()))]", "#[cfg_attr(any(), key = \"wrong\")]", "#[cfg_attr(any(), ignore)]", "#[cfg_attr(all(), allow(unused))]", "#[rustfmt::skip]", "#[deprecated]", "#[deprecated(since = \"1.0\", note = \"n\")]",
               "#[deprecated = \"old\"]", "#[allow(clippy::all)]", "#[expect(unused, reason = \"why\")]", "// a comment", "/* key = \"no\" */", "#[warn(unused)]", "#[allow(clippy::a, clippy::b)]"]
# the attributes of another derive (dk::Other) and of tools
OTHER_ATTRS = ["#[ignored]", "#[ignore_it]", "#[not_ignore]", "#[Ignore]", "#[IGNORE]", "#[ign]", "#[keys = \"no\"]", "#[Key = \"no\"]", "#[keyed = \"no\"]", "#[my_key = \"no\"]", "#[rename = \"no\"]", "#[skip]", "#[serde(rename = \"no\", ignore, key = \"no\", skip)]", "#[serde(ignore)]", "#[serde = \"key\"]",
               "#[other(key = \"no\")]", "#[other(ignore)]", "#[other[ignore]]", "#[other { key = \"no\" }]", "#[other = 3]", "#[other = 'k']", "#[other(key(ignore), 1 + 2, -3, \"s\")]", "#[other(a::b = 3.5, ignore::x)]", "#[other(crate::ignore)]", "#[json(ignore)]", "#[json = \"ignore\"]", "#[to_json(key = \"no\")]", "#[keys(key)]", "#[rename(key = r#\"no\"#)]", "#[other(#[ignore])]", "#[other(=> ignore, key = \"no\")]",
               "#[rust_analyzer::ignore]", "#[rust_analyzer::key = \"no\"]", "#[clippy::key = \"no\"]", "#[rustfmt::ignore]", "#[rust_analyzer::ignore(x)]", "#[rust_analyzer::skip(ignore, key = \"no\")]", "#[other(ignore = true)]", "#[other = true]", "#[other()]", "#[serde()]"]
STRUCT_ATTRS = ["/// doc of the struct", "/** block */", "#[doc = \"y\"]", "#[doc(hidden)]", "#[repr(C)]", "#[must_use]", "#[must_use = \"use it\"]", "#[non_exhaustive]", "#[allow(non_camel_case_types, dead_code)]", "#[deprecated]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]", "#[repr(align(8))]", "#[repr(C, align(16))]",
                "#[derive()]", "#[cfg_attr(any(), derive(Clone))]", "#[rustfmt::skip]", "#[allow(clippy::all)]"]
NUMS = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "u128", "i128"]


class Mod:
    """one module: its source with the derives, the same without them, and what was used in it"""


class Gen:
    def __init__(self, rng, index, hostile=None):
        self.r, self.index = rng, index
        self.used = set()
        self.hostile = rng.random() < 0.2 if hostile is None else hostile
        self.structs = []   # (text of the concrete type, encode, decode)
        self.aliases = {}

    def use(self, f):
        self.used.add(f)

    def std(self, name):
        full = {"String": "std::string::String", "Vec": "std::vec::Vec", "Option": "std::option::Option", "HashMap": "std::collections::HashMap", "PhantomData": "std::marker::PhantomData", "Box": "std::boxed::Box", "Result": "std::result::Result"}[name]
        short = name in ("String", "Vec", "Option", "Box", "Result") and not self.hostile
        c = self.r.random()
        if short and c < 0.6:
            return name
        self.use("path type")
        return full if c < 0.8 else "::" + full

    def prim(self, name):
        if self.hostile:
            return ("::" if self.r.random() < 0.5 else "") + "std::primitive::" + name
        return name

    def dk(self, name):
        return ("::" if self.r.random() < 0.5 else "") + "dk::" + name

    def weird(self, params, depth=2, sized=False):
        """the text of any type at all"""
        r, q = self.r, self.prim
        c = r.randrange(52)
        while sized and c in (9, 10, 21, 22, 45):
            c = r.randrange(52)
        w = lambda: self.weird(params, depth - 1, True) if depth else q("u8")
        self.use("odd type %d" % c)
        lt = [p["name"] for p in params if p["kind"] == "lt"] + ["'static"]
        tys = [p["name"] for p in params if p["kind"] == "ty" and not (sized and p["unsized"])]
        cs = [p["name"] for p in params if p["kind"] == "const" and p["type"].endswith("usize")]
        if c == 34: return "*const %s" % w()
        if c == 35: return "*mut %s" % w()
        if c == 36: return "%s::<%s>" % (self.std("Vec"), w())
        if c == 37: return "for<'x> fn(&'x %s) -> &'x %s" % (q("u8"), q("u8"))
        if c == 38: return "extern \"C\" fn(%s)" % q("u8")
        if c == 39: return "unsafe fn(%s) -> %s" % (q("u8"), q("bool"))
        if c == 40: return "unsafe extern \"C\" fn(*const %s, ...) -> %s" % (q("u8"), q("i32"))
        if c == 41: return "%s<dyn for<'x> Fn(&'x %s) -> &'x %s + 'static>" % (self.std("Box"), q("u8"), q("u8"))
        if c == 42: return "%s<%s>" % (self.dk("Arr"), r.choice(cs + ["3", "{ 1 + 2 }", "{ 7 }"]))
        if c == 43: return "&'static (dyn %s + ::std::marker::Send)" % self.dk("Marker")
        if c == 44: return "extern fn()"
        if c == 45: return "(dyn %s)" % self.dk("Marker")
        if c == 46: return "%s<dyn %s<%s> + %s>" % (self.std("Box"), self.dk("Of"), w(), r.choice(lt))
        if c == 47: return "fn(%s: %s, _: %s) -> fn(%s) -> (%s, %s)" % (r.choice(["a", "_", "r#fn"]), q("u8"), q("u16"), q("u8"), q("u8"), q("u8"))
        if c == 48: return "fn(fn(%s) -> %s) -> %s<%s>" % (q("u8"), q("u8"), self.std("Option"), q("u8"))
        if c == 49: return "[fn(%s) -> %s; 2 + 1]" % (q("u8"), q("u8"))
        if c == 50: return "%s<dyn FnMut(%s, &%s [%s]) -> %s<%s, %s>>" % (self.std("Box"), q("u8"), r.choice(lt), q("u8"), self.std("Result"), q("u8"), q("u16"))
        if c == 51: return "<<%s as %s>::Out as %s>::Out" % (q("u8"), self.dk("Id"), self.dk("Id"))
        if c == 0: return "[%s; 3]" % w()
        if c == 1: return "[%s; %s]" % (q("u8"), r.choice(cs) if cs else "4")
        if c == 2: return "(%s, %s)" % (w(), w())
        if c == 3: return "()"
        if c == 4: return "(%s,)" % w()
        if c == 5: return "&%s %s" % (r.choice(lt), q("str"))
        if c == 6: return "&%s mut %s" % (r.choice(lt), q("u8"))
        if c == 7: return "fn(%s) -> %s" % (q("u8"), q("u8"))
        if c == 8: return "fn()"
        if c == 9: return "[%s]" % w()
        if c == 10: return q("str")
        if c == 11: return "%s<dyn Fn(%s) -> %s>" % (self.std("Box"), q("u8"), q("u8"))
        if c == 12: return "<%s<%s> as ::std::iter::IntoIterator>::Item" % (self.std("Vec"), q("u8"))
        if c == 13: return "%s<%s, %s>" % (self.std("Result"), w(), self.std("String"))
        if c == 14: return "[%s; { 1 + 2 }]" % q("u8")
        if c == 15: return "[%s; 2 * 3]" % q("u8")
        if c == 16: return "(%s)" % self.weird(params, depth - 1, sized) if depth else "(%s)" % q("u8")
        if c == 17: return r.choice(tys) if tys else q("i16")
        if c == 18: return "%s<%s>" % (self.std("Vec"), w())
        if c == 19: return "%s<%s, %s<%s>>" % (self.std("HashMap"), self.std("String"), self.std("Vec"), w())
        if c == 20: return "%s<%s, %s>" % (self.dk("Lt"), r.choice(lt), q("u8"))
        if c == 21: return "dyn %s" % self.dk("Marker")
        if c == 22: return "dyn %s + ::std::marker::Send" % self.dk("Marker")
        if c == 23: return "&%s [%s]" % (r.choice(lt), q("u8"))
        if c == 24: return "%s<dyn ::std::iter::Iterator<Item = %s>>" % (self.std("Box"), q("u8"))
        if c == 25: return "[(%s, [%s; 2]); 2]" % (q("u8"), q("bool"))
        if c == 26: return "%s<&%s %s>" % (self.std("Option"), r.choice(lt), q("str"))
        if c == 27: return "<%s as %s>::Out" % (q("u8"), self.dk("Id"))
        if c == 28: return "fn(&%s) -> &%s" % (q("u8"), q("u8"))
        if c == 29: return "(%s, &'static %s, fn(%s))" % (w(), q("str"), q("u8"))
        if c == 30: return "%s<fn(%s, %s) -> %s<%s>>" % (self.std("Option"), q("u8"), q("u16"), self.std("Vec"), q("u8"))
        if c == 31: return "%s<[%s; 2]>" % (self.std("Vec"), self.std("String"))
        if c == 32: return "&'static (%s, %s)" % (q("u8"), q("u8"))
        return "%s<(%s, %s)>" % (self.std("Option"), w(), w())

    def ty(self, dec, params, depth=3, opt=True, shared=True):
        """the text of a type that has the traits"""
        r = self.r
        leafs = [("num", 5), ("string", 4), ("bool", 2), ("json", 1 if opt else 0), ("even", 1), ("saw", 1), ("any", 3)]
        nest = [("vec", 2), ("option", 2 if opt else 0), ("map", 1), ("pairs", 1), ("paren", 0.4), ("refs", 0.6), ("qpath", 0.4), ("alias", 0.4)] if depth else []
        more = []
        mine = [s for s in self.structs if s[1] and (s[2] or not dec)]
        if mine:
            more.append(("struct", 3))
        tys = [p for p in params if p["kind"] == "ty" and p["traits"]]
        if tys:
            more.append(("param", 6))
        if not dec and shared:
            more.append(("ref", 4))
        ch = leafs + nest + more
        k = r.choices([c[0] for c in ch], [c[1] for c in ch])[0]
        self.use("field type " + k)
        sub = lambda o=True: self.ty(dec, params, depth - 1, o, shared)
        if k == "num": return self.prim(r.choice(NUMS))
        if k == "string": return self.std("String")
        if k == "bool": return self.prim("bool")
        if k == "json": return r.choice(["::json::Json", "::dk::Json"] if self.hostile else ["json::Json", "::json::Json", "dk::Json"])
        if k == "even": return self.dk("Even")
        if k == "saw": return self.dk("Saw")
        if k == "any": return "%s<%s>" % (self.dk("Any"), self.weird(params))
        if k == "vec": return "%s<%s>" % (self.std("Vec"), sub())
        if k == "option": return "%s<%s>" % (self.std("Option"), sub(False))
        if k == "map": return "%s<%s, %s>" % (self.std("HashMap"), self.std("String") if r.random() < 0.7 else self.prim("u8"), sub())
        if k == "pairs": return "%s<%s, %s>" % (self.dk("Pairs"), self.std("String"), sub())
        if k == "refs": return "&'static %s%s" % (r.choice(["", "mut "]), self.dk("Even"))
        if k == "paren": return "(%s)" % sub(opt)
        if k == "qpath": return "<%s as %s>::Out" % (sub(opt), self.dk("Id"))
        if k == "alias":
            a = "Alias%d" % len(self.aliases)
            self.aliases[a] = self.std("Vec")
            return "%s<%s>" % (a, sub())
        if k == "struct": return r.choice(mine)[0]
        if k == "param": return r.choice(tys)["name"]
        lt = r.choice([p["name"] for p in params if p["kind"] == "lt"] + ["'static"])
        c = r.randrange(5)
        if c == 4: return "&%s %s" % (lt, self.dk("Even"))
        if c == 0: return "&%s %s" % (lt, self.prim("str"))
        if c == 1: return "&%s %s" % (lt, self.prim(r.choice(["u8", "i32", "u64", "f64", "bool"])))
        if c == 2: return "&%s [%s]" % (lt, self.ty(True, [], 1))
        return "&%s [(%s, %s)]" % (lt, self.std("String"), self.prim("u8"))

    def plain_with_default(self, params):
        """a type for an ignored field"""
        r = self.r
        c = r.randrange(12)
        self.use("ignored type %d" % c)
        q = self.prim
        if c == 0: return "(%s, %s)" % (q("u8"), self.std("String"))
        if c == 1: return "[%s; 4]" % q("u8")
        if c == 2: return "()"
        if c == 3: return "%s<%s>" % (self.std("PhantomData"), self.weird(params))
        if c in (4, 5): return self.dk("Opaque")
        if c == 6: return "%s<%s>" % (self.dk("Any"), self.weird(params))
        if c == 7: return "&'static %s" % q("str")
        if c == 8: return "%s<%s>" % (self.std("Option"), self.dk("Opaque"))
        if c == 9: return "(%s,)" % self.dk("Even")
        if c == 10: return self.dk("Saw")
        return q(r.choice(NUMS))

    def params(self, enc, dec):
        r = self.r
        out = []
        if r.random() < 0.45:
            return out
        for i in range(r.choice([0, 0, 0, 1, 1, 2])):
            nm = ["'a", "'b", "'de"][i] if r.random() < 0.9 else r.choice(["'static_", "'_x", "'statics", "'A", "'Static", "'X9"]) + "_" * i
            b = [out[0]["name"]] if i and r.random() < 0.5 else []
            if r.random() < 0.15:
                b = b + ["'static"] if False else b
            out.append({"kind": "lt", "name": nm, "bounds": b, "where": r.random() < 0.3, "arg": "'static", "default": None})
        lts = [p["name"] for p in out]
        for i in range(r.choice([0, 1, 1, 1, 2, 3])):
            nm = ["T", "U", "Value"][i] if r.random() < 0.9 else ["r#type", "r#Self_", "r#fn"][i]
            kind = r.choices(["traits", "phantom", "unsized", "fn", "iter"], [6, 2, 1, 1, 1])[0]
            p = {"kind": "ty", "name": nm, "bounds": [], "where": r.random() < 0.35, "traits": kind == "traits", "default": None, "unsized": False}
            tr = lambda n: r.choice(["::json::%s", "::dk::%s"] + ([] if self.hostile else ["json::%s", "dk::%s"])) % n
            q = self.prim
            if kind == "traits":
                p["bounds"] = [tr("ToJson")] if enc else []
                if dec:
                    p["bounds"].append(tr("FromJson"))
                p["arg"] = r.choice([q("u8"), self.std("String"), "%s<%s>" % (self.std("Vec"), q("u8")), q("bool"), self.dk("Even"), "%s<%s>" % (self.dk("Any"), q("str"))])
            elif kind == "phantom":
                p["arg"] = r.choice([q("u8"), "(%s, %s)" % (q("u8"), q("u8")), self.dk("Opaque")])
            elif kind == "unsized":
                p["bounds"], p["unsized"] = ["?Sized"], True
                p["arg"] = r.choice([q("str"), "[%s]" % q("u8"), q("u8")])
            elif kind == "fn":
                f = r.choice(["Fn", "FnMut", "FnOnce", "std::ops::Fn", "::std::ops::FnMut"])
                p["bounds"] = [f + r.choice(["(%s) -> %s" % (q("u8"), q("u8")), "(%s) -> %s" % (q("u8"), q("u8"))])]
                p["arg"] = "fn(%s) -> %s" % (q("u8"), q("u8"))
            else:
                p["bounds"] = [r.choice(["::std::iter::Iterator<Item = %s>" % q("u8"), "std::iter::Iterator<Item = %s>" % q("u8"), "::std::iter::Iterator<Item: ::std::marker::Copy>", "::std::iter::Iterator<Item: std::marker::Copy + ::std::fmt::Debug>", "std::iter::IntoIterator<Item: ::std::marker::Copy, IntoIter: ::std::iter::Iterator<Item = %s>>" % q("u8")])]
                p["arg"] = "::std::vec::IntoIter<%s>" % q("u8")
            self.use("parameter " + kind)
            extra = [self.dk("Marker"), "%s<%s>" % (self.dk("Of"), self.weird([], 1)), "%s<%s<%s>>" % (self.dk("Of"), self.std("Vec"), q("u8")), "%s<&'static %s>" % (self.dk("Of"), q("str"))]
            if lts:
                extra += [lts[0], "%s<&%s %s>" % (self.dk("Of"), lts[0], q("str"))]
            if kind != "unsized":
                extra += ["'static", "Sized" if not self.hostile else self.dk("Marker")]
            es = r.sample(extra, r.choice([0, 0, 1, 2]))
            if sum("Of<&" in e for e in es) > 1:
                es = es[:1]
            for e in es:
                p["bounds"].insert(r.randrange(len(p["bounds"]) + 1), e)
                self.use("more bounds")
            if r.random() < 0.15:
                p["default"] = p["arg"]
                self.use("default of a type parameter")
            out.append(p)
        # defaults have to come last
        seen = False
        for p in out:
            if p["kind"] == "ty":
                seen = seen or p["default"] is not None
                if seen and p["default"] is None:
                    p["default"] = p["arg"]
        for i in range(r.choice([0, 0, 0, 1, 2])):
            t = r.choice(["usize", "u8", "bool", "i32"])
            t = "usize" if i == 0 else t
            out.append({"kind": "const", "name": ["N", "M"][i], "type": self.prim(t), "bounds": [], "where": False, "arg": {"bool": "true", "usize": "3"}.get(t, "{ 1 }"), "default": {"bool": "true", "usize": "3"}.get(t, "{ 1 }") if seen or r.random() < 0.2 and (i == 0 or out[-1]["default"]) else None})
            if out[-1]["default"]:
                seen = True
                self.use("default of a const parameter")
            self.use("const parameter")
        return out

    def predicates(self, params):
        """bounds in the where clause that are not on a parameter alone"""
        r, q = self.r, self.prim
        out = []
        if r.random() < 0.75:
            return out
        tys = [p["name"] for p in params if p["kind"] == "ty" and not p["unsized"]] or [q("u8"), "(%s, %s)" % (q("u8"), q("u16"))]
        lts = [p["name"] for p in params if p["kind"] == "lt"] + ["'static"]
        for _ in range(r.choice([1, 1, 2, 3])):
            t, mk = r.choice(tys), self.dk("Marker")
            c = r.randrange(23)
            self.use("predicate %d" % c)
            out.append([
                lambda: "%s<%s>: %s" % (self.std("Vec"), t, mk), lambda: "for<'x> &'x %s: %s" % (q("u8"), mk), lambda: "[%s; 2]: %s" % (t, mk), lambda: "(%s, %s): %s" % (t, q("u8"), mk), lambda: "%s: %s" % (q("u8"), mk),
                lambda: "<%s as %s>::Out: %s + Send" % (q("u8"), self.dk("Id"), mk), lambda: "%s: for<'x> %s<&'x %s>" % (t, self.dk("Of"), q("u8")), lambda: "&'static %s: %s" % (q("str"), mk), lambda: "fn(%s) -> %s: %s" % (q("u8"), q("u8"), mk),
                lambda: "%s<%s>: ::json::ToJson" % (self.dk("Any"), t), lambda: "[(); 3]: Sized", lambda: "%s: %s" % (q("str"), mk), lambda: "%s: %s" % (lts[0], lts[0]), lambda: "%s:" % t, lambda: "%s: Sized" % t, lambda: "%s: %s +" % (t, mk),
                lambda: "for<'x> fn(&'x %s) -> &'x %s: %s" % (q("u8"), q("u8"), mk), lambda: "::dk::Any<<%s as ::dk::Id>::Out>: %s<%s>" % (q("u8"), self.dk("Of"), q("u8")), lambda: "%s: (%s)" % (t, mk), lambda: "*const %s: %s" % (t, mk), lambda: "%s:" % q("str"), lambda: "[%s]:" % q("u8"), lambda: "dyn %s:" % mk,
            ][c]())
        return out

    def literal_key(self):
        if self.r.random() < 0.6:
            return self.r.choice(KEYS)
        return self.any_literal()

    def any_literal(self):
        """a random text, and one of the ways of writing it as a literal"""
        r = self.r
        pool = r.choice(["abcXYZ", "abKZ019_-.", "aB \"#r\\'", "Aé日💖ß\u0301", "x{}%/*#\n\t\"\\ Y"])
        text = "".join(r.choice(pool) for _ in range(r.choice([1, 2, 3, 5, 8, 13, 40])))
        if r.random() < 0.35:
            n = 0
            while '"' + "#" * n in text:
                n += 1
            n = max(n, 0 if r.random() < 0.7 else r.randrange(4))
            return "r" + "#" * n + '"' + text + '"' + "#" * n, text
        out = []
        for i, c in enumerate(text):
            k = r.random()
            if k < 0.08:
                out.append(r.choice(["\\u{%x}", "\\u{%X}", "\\u{%04x}", "\\u{%06X}"]) % ord(c))
            elif k < 0.13 and ord(c) < 128:
                out.append(r.choice(["\\x%02x", "\\x%02X"]) % ord(c))
            elif c in '"\\':
                out.append("\\" + c)
            elif c == "\n":
                out.append(r.choice(["\\n", "\n"]))
            elif c == "\t":
                out.append("\\t")
            elif c == "'" and k < 0.5:
                out.append("\\'")
            else:
                out.append(c)
            # a line that goes on takes the white space that follows with it
            if r.random() < 0.03 and i + 1 < len(text) and text[i + 1] not in " \n\t":
                out.append("\\\n  ")
        return '"' + "".join(out) + '"', text

    def long_name(self):
        r = self.r
        n = r.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
        x = "".join(r.choice("abcdefgh_0123456789é") for _ in range(n - 1))
        self.use("long field name")
        return r.choice("klm_") + x + "z"

    def attrs(self, pool, prob, limit):
        out = []
        for _ in range(limit):
            if self.r.random() < prob:
                a = self.r.choice(pool)
                if a not in out and not (a.startswith("#[deprecated") and any(x.startswith("#[deprecated") for x in out)) and not ("repr" in a and any("repr" in x for x in out)) and not ("must_use" in a and any("must_use" in x for x in out)):
                    out.append(a)
                    self.use("attribute " + a[:28])
        return out

    def struct(self, n):
        r = self.r
        s = {}
        c = r.random()
        s["enc"], s["dec"] = (True, True) if c < 0.75 else ((True, False) if c < 0.9 else (False, True))
        s["params"] = self.params(s["enc"], s["dec"])
        s["preds"] = self.predicates(s["params"])
        if self.hostile and r.random() < 0.4:
            s["name"] = self.hostile_names.pop()
        else:
            s["name"] = r.choice(["S%d", "S%d", "Größe%d", "lower%d", "r#S%d"]) % n
        if s["name"].startswith("r#"):
            self.use("raw struct name")
        nf = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12]) if r.random() < 0.97 else r.randrange(20, 45)
        names = r.sample(NAMES + RAW, min(nf, len(NAMES) + len(RAW)))
        names += ["f%d_more" % i for i in range(nf - len(names))]
        if r.random() < 0.12 and names:
            names[r.randrange(len(names))] = self.long_name()
        fields = []
        for nm in names:
            f = {"name": nm, "attrs": self.attrs(FIELD_ATTRS, 0.3, 3), "key": nm[2:] if nm.startswith("r#") else nm, "lit": None, "ignore": False, "vis": self.vis(), "off": False}
            if nm.startswith("r#"):
                self.use("raw field name")
            c = r.random()
            if c < 0.35:
                f["lit"], f["key"] = self.literal_key()
                self.use("key " + f["lit"] if any(f["lit"] == k[0] for k in KEYS) else "key of random text, " + ("raw" if f["lit"][0] == "r" else "with escapes" if "\\" in f["lit"] else "plain"))
            elif c < 0.42:
                o = r.choice(names)
                o = o[2:] if o.startswith("r#") else o
                f["lit"], f["key"] = '"%s"' % o, o
                self.use("key that is the name of a field")
            if r.random() < 0.18:
                f["ignore"] = True
                self.use("ignored")
                if f["lit"]:
                    self.use("ignored with a key")
                f["ty"] = self.plain_with_default(s["params"])
            else:
                f["ty"] = self.ty(s["dec"], s["params"], shared=not s["dec"])
            if r.random() < 0.04:
                f["off"] = True
                f["attrs"].append("#[cfg(any())]")
                self.use("field that is configured out")
            if r.random() < 0.08:
                f["attrs"] += self.attrs(OTHER_ATTRS, 0.6, 3)
            fields.append(f)
        # every parameter has to be used
        text = " ".join(f["ty"] + " " for f in fields if not f["off"])
        for p in s["params"]:
            import re
            if p["kind"] != "const" and not re.search(r"(?<![\w'])%s(?!\w)" % p["name"], text):
                inner = "&%s ()" % p["name"] if p["kind"] == "lt" else p["name"]
                nm = "p_%s" % p["name"].strip("'").replace("r#", "")
                fields.insert(r.randrange(len(fields) + 1), {"name": nm, "attrs": [], "key": nm, "lit": None, "ignore": True, "vis": "", "off": False, "ty": "%s<%s>" % (self.std("PhantomData"), inner)})
        # a type parameter that is only in an unsized-friendly place may be unsized; the others are used as they are
        s["fields"] = fields
        s["vis"] = self.vis()
        s["attrs"] = self.attrs(STRUCT_ATTRS, 0.25, 3)
        if any(a in OTHER_ATTRS for f in fields for a in f["attrs"]):
            self.use("attributes of another derive")
            if r.random() < 0.4:
                s["attrs"] += self.attrs(OTHER_ATTRS, 0.6, 2)
            s["attrs"].insert(0, "#[derive(::dk::Other)]")
        s["comma"] = r.random() < 0.6
        s["oneline"] = r.random() < 0.15
        s["derive"] = r.randrange(5)
        s["number"] = n
        s["macro"] = r.randrange(1, 1 << 16) if r.random() < 0.15 else 0
        if s["macro"]:
            self.use("declared by a macro")
        args = ", ".join(p["arg"] for p in s["params"])
        s["concrete"] = s["name"] + ("<%s>" % args if args else "")
        return s

    def vis(self):
        return self.r.choice(["", "", "", "pub ", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in crate::m%d) " % self.index, "pub(in super) "]) if self.free_vis else self.r.choice(["", "pub ", "pub(crate) "])

    # ---- writing ----
    @staticmethod
    def generics(s, defaults=True):
        out = []
        for p in s["params"]:
            if p["kind"] == "const":
                out.append("const %s: %s%s" % (p["name"], p["type"], " = " + p["default"] if defaults and p["default"] else ""))
                continue
            t = p["name"]
            if p["bounds"] and not p["where"]:
                t += ": " + " + ".join(p["bounds"])
            if defaults and p["default"]:
                t += " = " + p["default"]
            out.append(t)
        return "<%s>" % ", ".join(out) if out else ""

    @staticmethod
    def where(s, trail):
        out = ["%s: %s" % (p["name"], " + ".join(p["bounds"])) for p in s["params"] if p["bounds"] and p["where"]]
        out[len(out) // 2:len(out) // 2] = s["preds"]
        return " where " + ", ".join(out) + ("," if trail else "") if out else ""

    @staticmethod
    def idents(s):
        return "<%s>" % ", ".join(p["name"] for p in s["params"]) if s["params"] else ""

    def decl(self, s, derives):
        L = []
        at = list(s["attrs"])
        if derives:
            n = [x for x, y in (("JsonEncode", s["enc"]), ("JsonDecode", s["dec"])) if y]
            full = ["::json::" + x for x in n]
            d = s["derive"]
            if d == 0 and len(n) == 2:
                at += ["#[derive(%s)]" % x for x in full]
            elif d == 1:
                at = ["#[derive(%s,)]" % ", ".join(reversed(full))] + at
            elif d == 2:
                at.append("#[derive(%s)]" % ", ".join(full))
            elif d == 3:
                at.insert(len(at) // 2, "#[derive(::dk::%s)]" % ", ::dk::".join(n))
            else:
                at = ["#[cfg_attr(all(), derive(%s))]" % ", ".join(full)] + at
        else:
            at = [a for a in at]
        L += at
        body = []
        mac = [] if s["macro"] else None

        def part(kind, text):
            # as an argument of a macro, or as it is
            if mac is None or not text.strip() or (s["macro"] >> (len(mac) % 16)) & 1 and len(mac) < 40:
                if mac is not None:
                    mac.append(None)
                return text
            mac.append((kind, text.strip()))
            return "$p%d%s" % (len(mac) - 1, text[len(text.rstrip()):])
        for f in s["fields"]:
            a = list(f["attrs"])
            if derives:
                mine = []
                if f["lit"] is not None:
                    mine.append("#[key = %s]" % part("literal", f["lit"]) if f["name"] != "cfgd" else "")
                if f["ignore"]:
                    mine.append("#[ignore]")
                if f.get("swap"):
                    mine.reverse()
                k = f.get("at", 0) % (len(a) + 1)
                a = a[:k] + mine + a[k:]
            body.append("\n".join(a + ["%s%s: %s" % (part("vis", f["vis"]), part("ident", f["name"]), part("ty", f["ty"]))]))
        sep = ",\n    "
        L.append("%sstruct %s%s%s {\n    %s%s\n}" % (part("vis", s["vis"]), part("ident", s["name"]), self.generics(s), self.where(s, s["comma"]), sep.join(body), "," if s["comma"] and body else ""))
        if mac is None:
            return "\n".join(L)
        used = [(i, x) for i, x in enumerate(mac) if x]
        return "macro_rules! make_%d {\n(%s) => {\n%s\n};\n}\nmake_%d!(%s);" % (s["number"], " ".join("[$p%d:%s]" % (i, x[0]) for i, x in used), "\n".join(L), s["number"], " ".join("[%s]" % x[1] for i, x in used))

    def control(self, s):
        """the same type with implementations written by hand, as far as it matters to the compiler"""
        live = [f for f in s["fields"] if not f["off"] and not f["ignore"]]
        c = ["impl%s %s%s%s {" % (self.generics(s, False), s["name"], self.idents(s), self.where(s, False)), "    fn control(&self) {"]
        if s["enc"]:
            c += ["        let _ = ::json::ToJson::to_json(&self.%s);" % f["name"] for f in live]
        if s["dec"]:
            c += ["        let _ = <%s as ::json::FromJson>::from_json;" % f["ty"] for f in live]
            c += ["        let _ = <%s as ::std::default::Default>::default;" % f["ty"] for f in s["fields"] if f["ignore"] and not f["off"]]
        c += ["    }", "}"]
        if s["enc"]:
            c.append("impl%s ::json::ToJson for %s%s%s { fn to_json(&self) -> ::json::Json { ::std::todo!() } }" % (self.generics(s, False), s["name"], self.idents(s), self.where(s, False)))
        if s["dec"]:
            c.append("impl%s ::json::FromJson for %s%s%s { fn from_json(_: &::json::Json) -> ::std::result::Result<Self, ::json::Error> { ::std::todo!() } }" % (self.generics(s, False), s["name"], self.idents(s), self.where(s, False)))
        return "\n".join(c)

    def glue(self, s):
        """values of the struct, and when two are the same"""
        live = [f for f in s["fields"] if not f["off"]]
        g = ", ".join("%s: ::dk::Gen::gen(r)" % f["name"] for f in live)
        same = " && ".join("::dk::Gen::same(&self.%s, &o.%s)" % (f["name"], f["name"]) if not f["ignore"] else "::dk::default_like(&o.%s)" % f["name"] for f in live) or "true"
        return ("impl ::dk::Gen for %s {\n    fn gen(r: &mut ::dk::R) -> Self { %s { %s } }\n    fn same(&self, o: &Self) -> ::std::primitive::bool { %s }\n}" % (s["concrete"], s["name"], g, same))

    def check(self, s, tag):
        live = [f for f in s["fields"] if not f["off"] and not f["ignore"]]
        ign = [f for f in s["fields"] if not f["off"] and f["ignore"]]
        ty = s["concrete"]
        q = lambda t: '"' + "".join("\\u{%x}" % ord(ch) for ch in t) + '"'
        L = ['c.start("%s");' % tag, "for _ in 0..c.per {", "    let x: %s = ::dk::Gen::gen(&mut c.r);" % ty]
        others = [f["name"] for f in ign] + [f["name"] for f in live if f["lit"] is not None] + ["extra"] + [f["key"] for f in ign] + [f["key"] for f in s["fields"] if f["off"]]
        if s["enc"]:
            L.append("    let want = ::dk::object(::std::vec![%s]);" % ", ".join("(::std::string::String::from(%s), ::json::ToJson::to_json(&x.%s))" % (q(f["key"]), f["name"]) for f in live))
            L.append("    let got = ::json::ToJson::to_json(&x);")
            L.append("    let text = ::json::encode(&x);")
            L.append("    c.enc(&want, &got, &text);")
        else:
            L.append("    let want = ::dk::object(::std::vec![%s]);" % ", ".join("(::std::string::String::from(%s), ::dk::json(&mut c.r, 1))" % q(f["key"]) for f in live))
        if s["dec"]:
            L.append("    for k in 0..6 {")
            L.append("        let js = match k { 0 => ::std::clone::Clone::clone(&want), 1 => ::dk::other_kind(&mut c.r), _ => ::dk::mutate(&mut c.r, &want, &[%s], &[%s]) };" % (", ".join(q(f["key"]) for f in live), ", ".join(q(o) for o in others)))
            L.append("        let mut errs = ::std::vec::Vec::new();")
            for i, f in enumerate(live):
                L.append("        let w%d: ::std::option::Option<_> = ::dk::fld(&js, %s, &mut errs);" % (i, q(f["key"])))
            L.append("        ::dk::whole(&js, &mut errs);")
            L.append("        let y: ::std::result::Result<%s, _> = ::json::FromJson::from_json(&js);" % ty)
            L.append("        let y = y.map(|y| ::std::vec![%s]);" % ", ".join(["::dk::like(&w%d, &y.%s)" % (i, f["name"]) for i, f in enumerate(live)] + ["::dk::default_like(&y.%s)" % f["name"] for f in ign]))
            # what an error leaves without a type
            for i, f in enumerate(live):
                pass
            L.append("        c.dec(&js, y, &errs);")
            L.append("    }")
        keys = [f["key"] for f in live]
        if s["enc"] and s["dec"] and len(set(keys)) == len(keys):
            L.append("    let y: ::std::result::Result<%s, _> = ::json::decode(&text);" % ty)
            L.append("    c.back(match &y { ::std::result::Result::Ok(y) => ::dk::Gen::same(&x, y), _ => false }, \"a value\");")
            L.append("    let v: ::std::vec::Vec<%s> = ::dk::Gen::gen(&mut c.r);" % ty)
            L.append("    let y: ::std::result::Result<::std::vec::Vec<%s>, _> = ::json::decode(&::json::encode(&v));" % ty)
            L.append("    c.back(match &y { ::std::result::Result::Ok(y) => ::dk::Gen::same(&v, y), _ => false }, \"a list of values\");")
            L.append("    let v: ::std::collections::HashMap<::std::string::String, ::std::option::Option<%s>> = ::dk::Gen::gen(&mut c.r);" % ty)
            L.append("    let y: ::std::result::Result<::std::collections::HashMap<::std::string::String, ::std::option::Option<%s>>, _> = ::json::decode(&::json::encode(&v));" % ty)
            L.append("    c.back(match &y { ::std::result::Result::Ok(y) => ::dk::Gen::same(&v, y), _ => false }, \"a map of optional values\");")
        L.append("}")
        return "\n    ".join(L)

    def module(self):
        r = self.r
        self.hostile_names = r.sample(HOSTILE, len(HOSTILE)) if self.hostile else []
        infn = r.random() < 0.12
        self.free_vis = not infn
        if infn:
            self.use("inside a function")
        n = r.choice([1, 1, 2, 3])
        structs = []
        for i in range(n):
            s = self.struct(i)
            for f in s["fields"]:
                f["swap"], f["at"] = r.random() < 0.5, r.randrange(4)
            structs.append(s)
            keys = [f["key"] for f in s["fields"] if not f["off"] and not f["ignore"]]
            if len(set(keys)) == len(keys):
                # only these come back, so only these are nested
                self.structs.append((s["concrete"], s["enc"], s["dec"]))
            else:
                self.use("shared key")
        host = []
        if self.hostile:
            self.use("hostile names")
            taken = {s["name"] for s in structs}
            for h in self.hostile_names[:r.randrange(3, 12)]:
                if h in taken:
                    continue
                host.append(r.choice(["pub struct %s;" if False else "pub struct %s { pub hidden: () }", "pub enum %s { Only }", "pub type %s = ();", "pub type %s<X> = ::std::vec::Vec<X>;", "pub trait %s {}"]) % h)
        al = ["pub type %s<X> = %s<X>;" % (a, t) for a, t in self.aliases.items()]
        m = Mod()
        m.index = self.index
        m.used = sorted(self.used)
        m.structs = len(structs)
        m.fields = sum(len(s["fields"]) for s in structs)
        top = "\n".join(host + al)
        decls = "\n\n".join(self.decl(s, True) for s in structs)
        glue = "\n".join(self.glue(s) for s in structs)
        run = "\n    ".join(self.check(s, "m%d::%s" % (self.index, s["name"])) for s in structs)
        ctl = "\n\n".join(self.decl(s, False) + "\n" + self.control(s) for s in structs)
        if infn:
            m.full = "pub fn run(c: &mut ::dk::Ck) {\n%s\n%s\n%s\n    %s\n}\n" % (top, decls, glue, run)
            m.bare = "pub fn run() {\n%s\n%s\n}\n" % (top, decls)
            m.control = "pub fn run() {\n%s\n%s\n}\n" % (top, ctl)
        else:
            m.full = "%s\n%s\n%s\npub fn run(c: &mut ::dk::Ck) {\n    %s\n}\n" % (top, decls, glue, run)
            m.bare = "%s\n%s\n" % (top, decls)
            m.control = "%s\n%s\n" % (top, ctl)
        return m


def module(seed, index, hostile=None):
    return Gen(random.Random("%s-%s" % (seed, index)), index, hostile).module()


BAD_KEYS = ["= 5", "= -5", "= 5u8", "= 0x1f", "= 1_000", "= 3000000000", "= 1.5", "= -1.5", "= 1.5f32", "= 1e3", "= true", "= false", "= b\"x\"", "= b\"\"", "= br\"x\"", "= br#\"x\"#", "= b'x'", "= 'c'", "= '\\''", "= '\"'", "= c\"x\"", "= cr\"x\"", "= 0", "= 0b1", "= 7usize", "= 99999999999999999999999",
            "", "(\"x\")", "()", "(x)", "[\"x\"]", "{\"x\"}", "(x = \"y\")", "(rename = \"y\", other)", "(5)", "(name(\"x\"))", "(\"x\", \"y\")"]


class Neg:
    """a declaration the derives have to reject: with them, and without"""


def negative(seed, index):
    g = Gen(random.Random("neg-%s-%s" % (seed, index)), index, False)
    r = g.r
    g.free_vis, g.hostile_names = True, []
    c = r.random()
    enc, dec = True, True
    n = Neg()
    n.index = index
    which = r.choice([["JsonEncode"], ["JsonDecode"], ["JsonEncode", "JsonDecode"]])
    enc, dec = "JsonEncode" in which, "JsonDecode" in which
    ps = g.params(enc, dec)
    s = {"params": ps, "preds": g.predicates(ps)}
    der = "#[derive(%s)]" % ", ".join(r.choice(["::json::", "::dk::", "json::"]) + x for x in which)
    attrs = g.attrs(["/// a doc", "#[doc = \"d\"]", "#[allow(unused)]", "#[cfg(all())]", "#[must_use]"], 0.2, 2)
    if r.random() < 0.5:
        top, low = [der] + attrs, attrs
    else:
        top, low = attrs + [der], attrs
    nm = r.choice(["S", "Thing", "r#S", "Größe"])
    live = lambda: g.ty(dec, ps, 2, shared=not dec)
    import re

    def rest(texts):
        # the parameters have to be used
        out = []
        text = " ".join(t + " " for t in texts)
        for p in ps:
            if p["kind"] != "const" and not re.search(r"(?<![\w'])%s(?!\w)" % p["name"], text):
                out.append("%s<%s>" % (g.std("PhantomData"), "&%s ()" % p["name"] if p["kind"] == "lt" else p["name"]))
        return out
    al = lambda: "".join("pub type %s<X> = %s<X>;\n" % a for a in g.aliases.items())
    kind = r.choice(["enum", "enum", "tuple struct", "tuple struct", "unit struct", "union", "key", "key", "key", "key"])
    n.what = kind
    if kind == "key":
        k = r.choice(BAD_KEYS)
        n.what = "#[key%s]" % k
        nf = r.randrange(1, 6)
        bad = r.randrange(nf)
        names = r.sample(NAMES + RAW, nf)
        tys = [live() for _ in names]
        more = rest(tys)

        def body(on):
            out = []
            for i, f in enumerate(names):
                a = g2.attrs(["/// a doc", "#[allow(unused)]", "#[cfg(all())]"], 0.2, 2)
                key = "#[key %s]" % k if k.startswith("=") else "#[key%s]" % k
                if i == bad:
                    a.insert(g2.r.randrange(len(a) + 1), key if on == "bad" else "#[key = \"fine\"]" if on == "good" else "")
                elif g2.r.random() < 0.3:
                    o = "#[key = %s]" % g2.literal_key()[0]
                    a.insert(0, o if on != "off" else "")
                out.append("%s %s%s: %s" % (" ".join(x + ("\n" if x.startswith("//") else "") for x in a), "", f, tys[i]))
            for i, t in enumerate(more):
                out.append("%s p%d: %s" % ("#[ignore]" if on != "off" else "", i, t))
            return "{ " + ", ".join(out) + " }"
        d = {}
        st = r.random()
        for on in ("bad", "good", "off"):
            g2 = Gen(random.Random(str(st)), index, False)
            d[on] = "%s struct %s%s%s %s" % (g2.r.choice(["", "pub"]), nm, g.generics(s), g.where(s, False), body(on))
        n.bad, n.good, n.control = [al() + "\n".join(t + [d[w]]) for t, w in ((top, "bad"), (top, "good"), (low, "off"))]
        return n
    vis = r.choice(["", "pub ", "pub(crate) "])
    tup = lambda k: "(%s)" % ", ".join(k)
    if kind == "tuple struct":
        tys = [live() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        tys += rest(tys)
        d = "%sstruct %s%s%s%s;" % (vis, nm, g.generics(s), tup([r.choice(["", "pub ", "#[allow(unused)] "]) + t for t in tys]), g.where(s, False))
    elif kind == "unit struct":
        s["params"] = ps = [p for p in ps if p["kind"] == "const"]
        s["preds"] = g.predicates(ps)
        d = "%sstruct %s%s%s;" % (vis, nm, g.generics(s), g.where(s, False))
    elif kind == "union":
        s["params"] = ps = []
        s["preds"] = g.predicates(ps)
        d = "%sunion %s%s { %s }" % (vis, nm, g.where(s, False), ", ".join("f%d: %s" % (i, r.choice(["u8", "u32", "f64", "bool", "[u8; 4]", "&'static str", "()"])) for i in range(r.randrange(1, 4))))
    else:
        vs, used = [], []
        shape = r.choice(["unit", "unit", "tuple", "braces", "mixed", "empty"])
        nv = 0 if shape == "empty" else r.choice([1, 1, 2, 3, 6])
        for i in range(nv):
            sh = r.choice(["unit", "tuple", "braces"]) if shape == "mixed" else shape
            tys = [live() for _ in range(r.choice([0, 1, 2, 3]))] if sh != "unit" else []
            used += tys
            a = r.choice(["", "", "/// v\n", "#[allow(unused)] "])
            v = a + "V%d" % i
            if sh == "unit":
                v += " = %d" % (i * 3) if shape == "unit" and r.random() < 0.3 else ""
            elif sh == "tuple":
                v += tup(tys)
            else:
                v += " { " + ", ".join("f%d: %s" % (j, t) for j, t in enumerate(tys)) + " }"
            vs.append(v)
        more = rest(used)
        if more:
            vs = [v.split(" = ")[0] for v in vs]
            vs.append("Last" + tup(more))
        d = "%senum %s%s%s { %s }" % (vis, nm, g.generics(s), g.where(s, False), ", ".join(vs))
    n.bad, n.control = ["%s%s" % (al(), "\n".join(t + [d])) for t in (top, low)]
    n.good = None
    if r.random() < 0.1:
        mac = "macro_rules! make { () => {\n%s\n} }\nmake!();"
        n.what += " made by a macro"
        n.bad, n.control = ["%s%s" % (al(), mac % "\n".join(t + [d])) for t in (top, low)]
    return n


if __name__ == "__main__":
    import sys
    m = module(sys.argv[1], int(sys.argv[2]))
    print(m.full)
    print("/* control\n" + m.control + "*/")
