//! Runs json_parse inside the compiler on the declarations of a file and writes down what it reports.
//! PK_CASES: records of "kind length\n" and that many bytes; PK_OUT: one JSON line for each.
extern crate proc_macro;
use json_parse::enum_value::{EnumValueItem, EnumValues};
use json_parse::field::Fields;
use json_parse::generic::{GenericItem, Generics, WhereClause};
use json_parse::meta::{Lit, Meta, NestedMeta};
use json_parse::name::{Name, Type};
use json_parse::param::Params;
use json_parse::{EnumItem, FnItem, Item, Parse, StructItem};
use proc_macro::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

fn obj(v: &[(&str, String)]) -> String {
    format!("{{{}}}", v.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","))
}

fn opt(v: Option<String>) -> String {
    v.unwrap_or_else(|| "null".to_string())
}

fn flat(t: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(x) => out.push(format!("i:{}", x)),
            TokenTree::Literal(x) => out.push(format!("l:{}", x)),
            TokenTree::Punct(p) => {
                let next = match v.get(i + 1) {
                    Some(TokenTree::Punct(n)) => n.as_char(),
                    _ => ' ',
                };
                let joint = p.spacing() == Spacing::Joint && matches!((p.as_char(), next), (':', ':') | ('-', '>') | ('.', '.'));
                out.push(format!("p:{}{}", p.as_char(), if joint { "+" } else { "" }));
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("<<", ">>"),
                };
                out.push(a.to_string());
                flat(g.stream(), out);
                out.push(b.to_string());
            }
        }
    }
}

fn stream(t: TokenStream) -> String {
    let mut v = Vec::new();
    flat(t, &mut v);
    list(v.iter().map(|x| js(x)))
}

/// `NONE__ ( .. )` stands for the tokens in the parentheses, in a group without delimiters (as a macro makes them)
/// or, with `plain`, as they are
fn marked(t: TokenStream, plain: bool) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = t.into_iter().peekable();
    while let Some(x) = it.next() {
        match x {
            TokenTree::Ident(ref i) if i.to_string() == "NONE__" => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    let inner = marked(g.stream(), plain);
                    if plain {
                        out.extend(inner);
                    } else {
                        out.extend(Some(TokenTree::Group(Group::new(Delimiter::None, inner))));
                    }
                }
            }
            TokenTree::Group(g) => out.extend(Some(TokenTree::Group(Group::new(g.delimiter(), marked(g.stream(), plain))))),
            x => out.extend(Some(x)),
        }
    }
    out
}

/// the tokens of a text
fn toks(s: &str) -> String {
    match s.parse::<TokenStream>() {
        Ok(t) => stream(t),
        Err(_) => js(&format!("not tokens: {}", s)),
    }
}

fn vis(v: &Option<Option<String>>) -> String {
    opt(v.as_ref().map(|v| match v {
        None => list(vec![]),
        Some(p) => toks(p),
    }))
}

fn meta(m: &Option<Meta>) -> String {
    opt(m.as_ref().map(|m| toks(&m.to_string())))
}

fn generic(g: &GenericItem) -> String {
    obj(&[
        ("ident", toks(&g.ident)),
        ("constant", g.constant.to_string()),
        ("traits", list(g.traits.iter().map(|x| toks(&x.to_string())))),
        ("lifetimes", list(g.lifetimes.iter().map(|x| toks(&x.to_string())))),
        ("sized", g.sized.to_string()),
        ("default", opt(g.default.as_ref().map(|x| toks(&x.to_string())))),
        ("is_lifetime", g.is_lifetime().to_string()),
        ("is_static", g.is_static().to_string()),
    ])
}

fn generics(g: &Option<Generics>) -> String {
    opt(g.as_ref().map(|g| obj(&[("items", list(g.items.iter().map(generic))), ("only", toks(&g.only_idents())), ("bare", toks(&g.no_defaults()))])))
}

fn fields(f: &Fields) -> String {
    match f {
        Fields::NoFields => js("none"),
        Fields::TupleFields(v) => list(v.iter().map(|x| obj(&[("meta", meta(&x.meta)), ("vis", vis(&x.vis)), ("pos", x.pos.to_string()), ("ty", toks(&x.ty.to_string()))]))),
        Fields::StructFields(v) => list(v.iter().map(|x| obj(&[("meta", meta(&x.meta)), ("vis", vis(&x.vis)), ("ident", js(&x.ident)), ("ty", toks(&x.ty.to_string()))]))),
    }
}

fn value(v: &EnumValueItem) -> String {
    obj(&[("meta", meta(&v.meta)), ("ident", js(&v.ident)), ("fields", fields(&v.fields)), ("disc", opt(v.disc.map(|d| d.to_string())))])
}

fn parts(i: &Item) -> String {
    let which = list(vec![i.struct_item().is_some().to_string(), i.enum_item().is_some().to_string(), i.fn_item().is_some().to_string()]);
    match i {
        Item::Struct(s) => obj(&[
            ("which", which), ("meta", meta(&s.meta)), ("vis", vis(&s.vis)), ("ident", js(&s.ident)), ("generics", generics(&s.generics)),
            ("where", opt(s.where_clause.as_ref().map(|w| list(w.items.iter().map(generic))))), ("fields", fields(&s.fields)),
        ]),
        Item::Enum(s) => obj(&[
            ("which", which), ("meta", meta(&s.meta)), ("vis", vis(&s.vis)), ("ident", js(&s.ident)), ("generics", generics(&s.generics)),
            ("where", opt(s.where_clause.as_ref().map(|w| list(w.items.iter().map(generic))))), ("values", list(s.values.items.iter().map(value))),
        ]),
        Item::Fn(s) => obj(&[
            ("which", which), ("meta", meta(&s.meta)), ("vis", vis(&s.vis)), ("ident", js(&s.ident)), ("generics", generics(&s.generics)),
            ("where", opt(s.where_clause.as_ref().map(|w| list(w.items.iter().map(generic))))),
            ("flags", list(vec![s.asyncness.to_string(), s.constness.to_string(), s.unsafety.to_string()])),
            ("abi", opt(s.extern_abi.as_ref().map(|x| js(&x.to_string())))),
            ("params", list(s.params.items.iter().map(|p| obj(&[("ident", opt(p.ident.as_ref().map(|x| toks(x)))), ("ty", toks(&p.ty.to_string()))])))),
            ("ret", opt(s.return_ty.as_ref().map(|x| toks(&x.to_string())))), ("body", stream(TokenTree::from(s.body.clone()).into())),
        ]),
    }
}

fn lit(l: &Lit) -> String {
    obj(&[
        ("string", opt(l.string().map(js))),
        ("bytes", opt(l.bytes().map(|b| list(b.iter().map(|x| x.to_string()))))),
        ("integer", opt(l.integer().map(|x| x.to_string()))),
        ("float", opt(l.float().map(|x| js(&x.to_bits().to_string())))),
        ("boolean", opt(l.boolean().map(|x| x.to_string()))),
        ("text", toks(&l.to_string())),
    ])
}

/// everything the queries of a list of attributes answer, for the names asked about and `depth` levels of groups
fn queries(m: &Meta, names: &[String], depth: usize) -> String {
    let item = |x: Option<&json_parse::meta::MetaItem>| {
        opt(x.map(|x| {
            obj(&[("ident", opt(x.ident().map(js))), ("literal", opt(x.literal().map(lit))), ("pair", opt(x.pair().map(|p| js(p.0)))), ("group", opt(x.group().map(|g| js(g.0))))])
        }))
    };
    let n = m.idents().len() + m.literals().len();
    let mut v = vec![
        ("idents", list(m.idents().into_iter().map(js))),
        ("literals", list(m.literals().into_iter().map(lit))),
        ("pairs", format!("{{{}}}", m.pairs().iter().map(|(k, v)| format!("{}:{}", js(k), lit(v))).collect::<Vec<_>>().join(","))),
        ("at", list((0..n + 3).map(|i| item(m.get(i))))),
        ("at_ref", list((0..n + 3).map(|i| item(m.get(&i))))),
        ("get", list(names.iter().map(|k| opt(m.get(k.as_str()).map(lit))))),
    ];
    let g = m.groups();
    let inner = |x: &NestedMeta| if depth > 0 { queries(x, names, depth - 1) } else { js("deep") };
    v.push(("groups", format!("{{{}}}", g.iter().map(|(k, v)| format!("{}:{}", js(k), inner(v))).collect::<Vec<_>>().join(","))));
    v.push(("group", list(names.iter().map(|k| opt(m.get((k.as_str(), ())).map(|x| inner(x)))))));
    // a query into a group says the same as the query of the group
    v.push(("nested", list(names.iter().map(|k| list(names.iter().map(|j| opt(m.get((k.as_str(), j.as_str())).map(lit))))))));
    v.push(("nested_at", list(names.iter().map(|k| list((0..4usize).map(|i| item(m.get((k.as_str(), i)))))))));
    v.push(("nested2", list(names.iter().map(|k| list(names.iter().map(|j| list((0..3usize).map(|i| item(m.get((k.as_str(), (j.as_str(), i))))))))))));
    v.push(("nested3", list(names.iter().map(|k| list(names.iter().map(|j| opt(m.get((k.as_str(), (j.as_str(), ()))).map(|x| toks(&x.to_string())))))))));
    obj(&v)
}

/// the only attributes there are in an item
fn first(i: &Item) -> Option<&Meta> {
    fn of(f: &Fields) -> Option<&Meta> {
        match f {
            Fields::StructFields(v) => v.iter().find_map(|x| x.meta.as_ref()),
            Fields::TupleFields(v) => v.iter().find_map(|x| x.meta.as_ref()),
            Fields::NoFields => None,
        }
    }
    match i {
        Item::Struct(s) => s.meta.as_ref().or(of(&s.fields)),
        Item::Enum(e) => e.meta.as_ref().or_else(|| e.values.items.iter().find_map(|x| x.meta.as_ref().or(of(&x.fields)))),
        Item::Fn(f) => f.meta.as_ref(),
    }
}

fn name(n: &Name) -> String {
    obj(&[
        ("prefixes", list(n.prefixes.iter().map(|x| toks(x)))), ("ident", toks(&n.ident)), ("generics", list(n.generics.iter().map(ty))),
        ("text", toks(&n.to_string())), ("is_lifetime", n.is_lifetime().to_string()),
    ])
}

fn ty(t: &Type) -> String {
    obj(&[
        ("ident", opt(t.ident.as_ref().map(|x| toks(x)))), ("is_ref", t.is_ref.to_string()), ("lifetime", opt(t.lifetime.as_ref().map(|x| toks(&x.to_string())))),
        ("is_mut", t.is_mut.to_string()), ("is_dyn", t.is_dyn.to_string()), ("is_imp", t.is_imp.to_string()), ("is_lifetime", t.is_lifetime().to_string()),
        ("names", list(t.names.iter().map(name))), ("text", toks(&t.to_string())), ("used", toks(&t.used_ty())),
    ])
}

/// one part of a declaration parsed alone: what is reported, its text, and what is reported of its text
fn part<T: Parse + ToString>(t: TokenStream, report: impl Fn(&T) -> String) -> Vec<(&'static str, String)> {
    match json_parse::parse::<T>(t) {
        Err(e) => vec![("error", js(&format!("{:?}", e)))],
        Ok(x) => {
            let s = x.to_string();
            let again = match s.parse::<TokenStream>() {
                Err(_) => js("not tokens"),
                Ok(t) => match json_parse::parse::<T>(t) {
                    Err(e) => js(&format!("error {:?}", e)),
                    Ok(y) => report(&y),
                },
            };
            vec![("text", js(&s)), ("out", toks(&s)), ("parts", report(&x)), ("again", again)]
        }
    }
}

fn alone(kind: &str, t: TokenStream) -> Vec<(&'static str, String)> {
    match kind {
        "type" => part::<Type>(t, ty),
        "name" => part::<Name>(t, name),
        "generics" => part::<Generics>(t, |g| obj(&[("items", list(g.items.iter().map(generic))), ("only", toks(&g.only_idents())), ("bare", toks(&g.no_defaults()))])),
        "where" => part::<WhereClause>(t, |w| list(w.items.iter().map(generic))),
        "fields" => part::<Fields>(t, |f| obj(&[("fields", fields(f)), ("tuple", opt(f.index_fields().map(|x| x.len().to_string()))), ("named", opt(f.name_fields().map(|x| x.len().to_string())))])),
        "values" => part::<EnumValues>(t, |v| list(v.items.iter().map(value))),
        "params" => part::<Params>(t, |p| list(p.items.iter().map(|p| obj(&[("ident", opt(p.ident.as_ref().map(|x| toks(x)))), ("ty", toks(&p.ty.to_string()))])))),
        "meta" => part::<Meta>(t, |m| toks(&m.to_string())),
        "struct" => part::<StructItem>(t, |x| toks(&x.to_string())),
        "enum" => part::<EnumItem>(t, |x| toks(&x.to_string())),
        "fn" => part::<FnItem>(t, |x| toks(&x.to_string())),
        k => panic!("kind {}", k),
    }
}

fn case(kind: &str, text: &str) -> String {
    let t: TokenStream = match text.split('\u{1}').next().unwrap().parse() {
        Ok(t) => t,
        Err(_) => return obj(&[("lexes", "false".to_string())]),
    };
    let src = stream(marked(t.clone(), true));
    let t = marked(t, false);
    let r = catch_unwind(AssertUnwindSafe(|| match kind.strip_prefix("alone:") {
        Some(k) => {
            let mut v = alone(k, t.clone());
            // whether two types are equal
            if let (true, Some(b)) = (k == "type", text.split('\u{1}').nth(1)) {
                let b = marked(match b.parse() { Ok(b) => b, Err(_) => return v }, false);
                if let (Ok(x), Ok(y)) = (json_parse::parse::<Type>(t), json_parse::parse::<Type>(b)) {
                    v.push(("equal", list(vec![(x == y).to_string(), (y == x).to_string(), (x != y).to_string(), (x == x).to_string()])));
                    v.push(("other", ty(&y)));
                }
            }
            v
        }
        None => match json_parse::parse::<Item>(t) {
        Err(e) => vec![("error", js(&format!("{:?}", e)))],
        Ok(i) if kind == "attrs" => {
            let names: Vec<String> = text.split('\u{1}').skip(1).map(|x| x.to_string()).collect();
            vec![("queries", opt(first(&i).map(|m| queries(m, &names, 3))))]
        }
        Ok(i) => {
            let s = i.to_string();
            let again = match s.parse::<TokenStream>() {
                Err(_) => js("not tokens"),
                Ok(t) => match json_parse::parse::<Item>(t) {
                    Err(e) => js(&format!("error {:?}", e)),
                    Ok(j) => toks(&j.to_string()),
                },
            };
            vec![("text", js(&s)), ("out", toks(&s)), ("again", again), ("parts", parts(&i))]
        }
        },
    }));
    let mut v = vec![("lexes", "true".to_string()), ("src", src)];
    match r {
        Ok(r) => v.extend(r),
        Err(e) => v.push(("panic", js(e.downcast_ref::<String>().map(|x| x.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?")))),
    }
    obj(&v)
}

#[proc_macro]
pub fn run(_: TokenStream) -> TokenStream {
    let data = std::fs::read(std::env::var("PK_CASES").expect("PK_CASES")).unwrap();
    let mut out = String::new();
    let mut i = 0;
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| ()));
    while i < data.len() {
        let e = i + data[i..].iter().position(|b| *b == b'\n').unwrap();
        let head = std::str::from_utf8(&data[i..e]).unwrap();
        let (kind, n) = head.split_once(' ').unwrap();
        let n: usize = n.parse().unwrap();
        out += &case(kind, std::str::from_utf8(&data[e + 1..e + 1 + n]).unwrap());
        out.push('\n');
        i = e + 1 + n;
    }
    std::panic::set_hook(hook);
    std::fs::write(std::env::var("PK_OUT").expect("PK_OUT"), out).unwrap();
    TokenStream::new()
}
