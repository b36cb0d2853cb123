#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be edited in one place)."""
import json, os
L = "src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          **({"state": state} if state else {}),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

OBJ = [{"name": "Json::Object", "meaning": "per key: the last value and the list of earlier values, most recent first", "where": L}]

p("C01", "The parser accepts exactly the JSON texts of RFC 8259",
  "Json::parse (and str::parse::<Json>, and decode::<Json>) returns Ok for every text that matches the RFC 8259 grammar and Err for every other text. The only grammatical texts that are rejected are those with a number whose magnitude rounds beyond the largest finite double, and those with a \\u escape of a surrogate that is not part of a high-low pair.",
  ["inputs"], "every Unicode text: valid documents in every spelling of whitespace, escapes and numbers, and every broken neighbour of one (nesting up to a few hundred levels)",
  "the tests parse about 90 literal texts; the grammar has unboundedly many, and seven defects of the pinned commit in acceptance (brackets inside strings, joined tokens, spaces in empty containers, double colons, leading zeros) got past them",
  [L], [("Json::_parse and the parse_* functions", L), ("valid_number", L), ("is_whitespace", L)],
  ["the Result of Json::parse against an independent strict reader of RFC 8259"])

p("C02", "A parsed value is the one its text denotes",
  "When a text is accepted, the value has exactly the structure, element order, member names, strings, booleans, nulls and numbers that the text denotes: every array element in order, every member under its key, each escape sequence replaced by its character and every other character kept. When a key occurs several times in an object, all its values are kept in the order of the text, the last one being the value found by lookup.",
  ["inputs"], "every valid text, including repeated keys that are spelled differently (escapes), nested to any ordinary depth",
  "the tests compare a handful of small documents; the property is about every combination of nesting, escapes, whitespace and duplicates",
  [L], [("parse_array / parse_object split the text and recurse", L), ("parse_string", L), ("object_insert", L)],
  ["the public Json enum after Json::parse, compared member by member with an independent reader"], OBJ)

p("C03", "Encoding always yields valid JSON that denotes the value",
  "to_string of any Json value and encode of any ToJson value yield a text that is valid under RFC 8259 and denotes exactly that value: same structure, same array order, every member including every duplicate in insertion order per key, same strings, and numbers that read back as the same double. A number that is not finite is written as null.",
  ["inputs"], "every Json value (any keys, any strings, any doubles, any nesting, any duplicates), however it was built",
  "the tests compare the text of a few small values; characters, keys and doubles are sampled once or twice",
  [L], [("ToString for Json", L), ("escape / hex", L)], ["the text returned by to_string / encode, read by an independent strict reader"], OBJ)

p("C04", "parse(to_string(v)) == v",
  "For every Json value without non-finite numbers, parsing its text gives back an equal value, with every duplicate member in the same order. Encoding is a fixed point: text of the reparsed value is the same text, and for every accepted document parse, to_string, parse gives the value of the first parse.",
  ["inputs", "histories"], "every value built by parsing, by enum construction or by the editing API, and every accepted text",
  "round trips are tested on three literal documents without unusual characters, numbers or duplicates",
  [L], [("Json::parse", L), ("ToString for Json", L), ("escape against parse_string", L)], ["Json::parse(&v.to_string())"], OBJ)

p("C05", "The encoded text is canonical",
  "The text of a value depends only on its content, not on the order in which keys were added or on how the value was built: equal values have equal texts, in every run. Members are ordered by key (ascending), duplicates in insertion order, separated by ', ' and ': ' without other whitespace outside strings; all characters are printable ASCII (others are escaped) and an integer of magnitude up to 2^53 is written as plain decimal digits.",
  ["inputs", "histories"], "every value and every build history that leads to it (insertion orders, deletions, reparsing, cloning), across runs and hash seeds",
  "hash map iteration order is random per run, so a test that passes once says nothing about the other orders; only two or three keys are ever tested together",
  [L], [("keys are sorted before being written", L), ("escape", L)], ["to_string of the same content built in different ways and in different processes"], OBJ)

p("C06", "decode(encode(x)) == x for every supported type",
  "For every value x of a supported type, decode::<T>(&encode(&x)) is Ok(x): all integer types (magnitude up to 2^53 for the wide ones), f32 and f64 (every finite value, bit for bit), bool, String, Option, Vec, HashMap with any keys that survive ToString and FromStr, and their nestings. A Vec<(K, V)> comes back with the same pairs and, per key, in the same order; references and slices encode like the values they refer to.",
  ["inputs"], "every value of every composition of the supported types",
  "the tests round-trip four literal values of three types",
  [L], [("ToJson / FromJson implementations", L), ("number_imp!", L)], ["decode(encode(x)) and x.to_json().convert()"])

p("C07", "Typed decoding is decided by the JSON value alone",
  "Converting a Json value to T succeeds exactly when its kind fits T: a number for numeric types, string for String, boolean for bool, array for Vec<T>, object with string-convertible keys for HashMap<K,V> and Vec<(K,V)>, null or a fitting value for Option<T>, and anything for Json; every mismatch at any depth gives Err with kind ConvertError. Numbers are converted as Rust casts do (fraction dropped, saturating at the bounds of the type), HashMap takes the last value of a duplicated key and Vec<(K,V)> all of them in order.",
  ["inputs"], "every pair of Json value and target type, including mismatches deep inside containers",
  "test_convert tries a few matching kinds; mismatches, bounds and duplicates are not tried",
  [L], [("FromJson implementations", L)], ["Json::convert and decode against a reference conversion"], OBJ)

p("C08", "get and find return exactly the addressed value",
  "Looking up a path (string form with get, typed form with find, find! or indexing) succeeds exactly when every step exists: a key step on an object that has the key, an index step on an array that has the index. It then returns a reference to precisely that value, a duplicated key being followed through its last value, and it never changes the document.",
  ["inputs"], "every document and every path: existing, missing at any step, wrong kind at any step, duplicated keys, empty keys, keys that look like indices",
  "the tests look up about a dozen existing paths in one document",
  [L], [("Path::find / Finder::find", L), ("parse_path", L), ("Index for Json", L)], ["result of get/find compared with a reference tree walk, and the identity of the returned reference"], OBJ)

p("C09", "set and update always store the value and touch nothing else",
  "Setting a path that is syntactically valid always succeeds, afterwards looking up that path gives the value stored, and a mutable reference to that value is returned. Missing or wrong-kind intermediate values are replaced by new objects or arrays, arrays that are too short are filled with null up to the index, setting a key replaces all duplicates of it, an intermediate duplicated key is followed through its last value, and everything outside the path keeps its value; only an index too large for memory is an error.",
  ["inputs", "histories"], "every document, every path and every sequence of sets",
  "test_set makes seven sets on one small document; combinations of missing and wrong-kind intermediates, duplicates and long paddings are not reached",
  [L], [("Path::update / Finder::update", L), ("array_extend_to", L)], ["the whole tree after each set, compared with a reference tree"], OBJ)

p("C10", "del and discard remove exactly the addressed value",
  "Deleting a path removes exactly the addressed entry and returns its value: a key with all its duplicates (returning the last value), or one array element with the later elements moving down by one. If the path does not exist the result is an error and the document is unchanged; everything outside the addressed entry keeps its value in both cases.",
  ["inputs", "histories"], "every document and path, and every sequence of deletions",
  "test_del makes a few deletions on one document",
  [L], [("Path::discard / Finder::discard", L)], ["returned value and whole tree after each deletion, compared with a reference tree"], OBJ)

p("C11", "Path strings address what the path syntax says",
  "A path string is split at every '.' that is not written as '\\.'; a segment starting with '#' is an array index (decimal, otherwise PathSyntaxError), a leading '\\' is dropped (so '\\#k' and '\\\\k' are the keys '#k' and '\\k'), '\\.' stands for '.', and everything else is the key literally. The empty path is a PathSyntaxError for get, set and del, and get, set and del agree with find, update and discard on the typed path so described.",
  ["inputs"], "every path string and every key, including keys made of dots, backslashes, hashes, digits, spaces and non-ASCII characters",
  "the tests use about ten path strings, with one escaped key of each sort",
  [L], [("parse_path", L), ("Path::new / Path::append", L)], ["get/set/del with the string against find/update/discard with the typed path computed by an independent reading of the syntax"])

p("C12", "Object operations behave as an ordered multimap",
  "On an object, insert replaces every value of a key by the new one, append adds one after the existing ones, add_option does the one or the other, delete removes all values of the key (a missing key is not an error), and index_and_merge returns all values of the key from oldest to newest (MissingKey if none). On any other kind of value each of them returns InvalidValueKind and changes nothing.",
  ["histories", "inputs"], "every sequence of operations and every key and value, with many duplicates per key",
  "test_object_op and test_duplicate_order follow one short sequence with at most three duplicates",
  [L], [("insert / append / add_option / delete / index_and_merge", L), ("object_insert", L)], ["every operation's result and the whole object after it, compared with a reference multimap"], OBJ)

p("C13", "Array operations behave as a vector",
  "On an array, push adds one element at the end, replace(i) changes exactly element i, remove(i) takes out exactly element i keeping the order of the others, and replace and remove return IndexOutOfRange without effect when i is not an index of the array. On any other kind of value each of them returns InvalidValueKind and changes nothing.",
  ["histories", "inputs"], "every sequence of operations, every length and every index including the boundaries",
  "test_array_op follows one short sequence; an index out of range is never tried (the pinned commit panicked there)",
  [L], [("push / replace / remove", L)], ["every operation's result and the whole array after it, compared with a reference vector"])

p("C14", "The macros mean the calls they stand for",
  "object!{} builds the object obtained by appending its members in order (duplicates kept), array![] the array of its elements in order, path! the typed path of its steps, and find!, update! and discard! give the same result and effect as the methods on that path. Each argument expression is evaluated exactly once; members, elements and path steps in the order written, with or without a trailing comma.",
  ["programs", "inputs"], "every arity and argument type, nested macros, side-effecting arguments",
  "test_macros uses each macro once or twice with literals",
  [L], [("object! array! path! find! update! discard!", L)], ["value and side-effect log of macro invocations against the method calls"])

p("C15", "Text-level get, set and del equal parsing, acting and encoding",
  "The functions get, set, del and decode on a text give exactly the result of parsing the text, doing the operation on the value, and converting or encoding the result. They fail, without any other effect, whenever the text is not valid JSON, the path is invalid, the value is missing (get, del), or the value does not convert (get, decode).",
  ["inputs"], "every text, path and value type",
  "test_direct_set_get_del follows one document",
  [L], [("free functions encode/decode/get/set/del", L)], ["the returned text or value against a reference composition"])

p("C16", "Mutable access changes exactly the addressed location",
  "Writing through find_mut, through a mutable index expression, or through the reference that set and update return changes exactly the value at that location (the last value of a duplicated key, keeping the earlier ones) and nothing else. find_mut succeeds exactly when find does and for the same location, and indexing panics exactly when the lookup fails.",
  ["inputs", "histories"], "every document, path and written value",
  "test_operation assigns through one index expression",
  [L], [("Path::find_mut / Finder::find_mut", L), ("IndexMut for Json", L)], ["the whole tree after writing a unique value through the reference"], OBJ)

p("C17", "No input makes the library panic, abort or hang",
  "Every public operation except indexing with [] returns normally for every input: any text for parse, decode, get, set and del, any path string or typed path, any value and any index. In particular truncated, corrupted or adversarial texts give an Err and documents nested up to 256 levels are handled within an ordinary thread stack.",
  ["inputs", "histories"], "arbitrary Unicode texts, paths and indices, and arbitrary sequences of operations on the resulting values",
  "the tests feed about 25 invalid texts and no hostile path; Json::remove panicked on any index out of range at the pinned commit",
  [L], [("error returns instead of unwrap/indexing", L), ("recursive descent", L)], ["unwinding, process death, and time of every call under hostile inputs"])

p("C18", "Cost stays proportional to the data",
  "Parsing, encoding and cloning take time and memory bounded by a constant times the size of the document times its nesting depth, so that doubling the length of a flat document about doubles the cost, whatever its content (long strings, many elements, many keys, many duplicates, whitespace). Building a value element by element, reading all values of a key, and converting to and from collections costs in proportion to the number of elements. Looking up a path allocates memory in proportion to the length of the path and never copies the document, and a parsed value does not retain memory out of proportion to its text.",
  ["inputs"], "every family of growing documents: wide arrays and objects, long strings, escapes, duplicates, whitespace, long numbers; operations repeated, long paths, large collections",
  "tests only use documents of a few dozen bytes and do not look at cost",
  [L], [("single pass splitting per nesting level", L), ("references returned by find", L)], ["bytes and calls seen by a counting allocator, and thread CPU time across doubling sizes"])

p("C19", "Results do not depend on history or on concurrency",
  "The result of every operation depends only on its arguments: the same calls give the same results (values, the order of decoded pairs, errors) when repeated, in any order, after failed or panicking calls, and on any number of threads at once. Distinct values never influence each other, and a value can be read by several threads at the same time or moved to another thread.",
  ["schedules", "histories"], "every interleaving of calls on several threads and every preceding history",
  "each test runs a fixed sequence once; none starts a thread or repeats a call after a failure",
  [L], [("no shared or global state; owned values", L)], ["digest of every result in shuffled, repeated and concurrent executions; race detector and Miri schedules"])

p("C20", "No undefined behaviour, leaks or uninitialised data",
  "No sequence of operations on any input performs an invalid memory access or other undefined behaviour, every string the library hands out is valid UTF-8, and everything it allocates is released when the values and errors are dropped.",
  ["inputs", "histories"], "all operations on valid and invalid inputs, in particular non-ASCII strings, escapes, removals and replaced duplicates",
  "tests run without any instrumentation of memory",
  [L], [("safe Rust throughout; checked UTF-8 construction in parse_string", L)], ["Miri, AddressSanitizer with leak checking, and a balance-keeping allocator under the other monitors' workloads"])

p("C21", "Numbers are read and written exactly",
  "Every number in an accepted text becomes the double nearest to its exact decimal value (ties to even, underflow to zero, keeping the sign), for any number of digits and any exponent. Every finite double is written as a decimal text that reads back as the same double, and integers of magnitude up to 2^53 survive in both directions.",
  ["inputs"], "every decimal spelling (long mantissas, huge exponents, halfway cases, subnormals) and every finite double",
  "the tests try about 25 literals, all of them short",
  [L], [("parse_number", L), ("ToString of Json::Number", L)], ["the bits of the parsed double against exact big-integer arithmetic"])

p("C22", "Every Unicode string survives in both directions",
  "Every Unicode scalar value, alone and in any combination, is preserved as string content and as object key by encode followed by parse, and is accepted unescaped in a text unless it is '\"', '\\' or below U+0020. Every escape, including \\uXXXX in either letter case and every surrogate pair, is read as the character it denotes, and every other escape or unescaped control character is rejected.",
  ["inputs"], "all 1,112,064 scalar values, all 65,536 \\u escapes, all 1,048,576 surrogate pairs, and strings mixing them",
  "the tests try about ten characters",
  [L], [("escape / hex", L), ("parse_string / parse_hex_digit / encode_utf8", L)], ["exhaustive enumeration of characters, escapes and pairs through parse and to_string"])

p("C23", "Derived encoding writes every field under its key",
  "For a struct with #[derive(JsonEncode)], to_json gives an object with exactly one member per field that is not #[ignore]d, holding that field's encoding, under the name given by #[key = ...] or else under the field name; fields sharing a key become duplicates in field order. Other attributes, field types, generics, lifetimes, visibility and field order do not change this.",
  ["programs", "inputs"], "every braced struct whose fields implement ToJson, and every value of it",
  "the only derive test is the readme example, which is not even run; nothing compiles a generated struct",
  ["json_derive/src/lib.rs", "json_derive/parse/src/lib.rs", "json_derive/parse/src/field.rs", "json_derive/parse/src/meta.rs", "json_derive/quote/src/lib.rs"],
  [("json_encode", "json_derive/src/lib.rs"), ("Fields / Meta parsing", "json_derive/parse/src")], ["to_json of values of generated structs against an object built by hand"])

p("C24", "Derived decoding is the inverse of derived encoding",
  "For a struct with #[derive(JsonDecode)], from_json of an object reads every field from the last value of its key, fills #[ignore]d fields with Default, ignores all other members, and returns MissingKey when a key is absent, the error of the field's own conversion when a value does not fit, and ConvertError when the value is not an object. Hence decode(encode(x)) equals x for structs whose fields round-trip, also inside containers and other derived structs.",
  ["programs", "inputs"], "every braced struct whose fields implement FromJson, and every Json value",
  "no test of the repository decodes a derived struct",
  ["json_derive/src/lib.rs", "json_derive/parse/src"],
  [("json_decode", "json_derive/src/lib.rs")], ["from_json on complete, incomplete, ill-typed, over-complete and duplicated objects for generated structs"])

p("C25", "The derives compile for every ordinary braced struct",
  "Deriving JsonEncode and JsonDecode compiles for any braced struct whose fields implement the traits: any number of fields (also none), any visibility, type and const parameters with bounds and defaults, lifetimes, where clauses, tuple, array, path, pointer, function and reference types, raw identifiers, doc comments, other attributes and any key string, written out or produced by a macro_rules macro. Types that the surrounding module declares under names of the standard library (Result, Option, String, HashMap, Default, ...) do not disturb the derived code.",
  ["programs"], "generated struct declarations over the grammar of braced structs",
  "the tests compile no derive at all; some fifteen shapes failed to compile at the pinned commit",
  ["json_derive/src/lib.rs", "json_derive/parse/src", "json_derive/quote/src/lib.rs"],
  [("Item::parse and its parts", "json_derive/parse/src/lib.rs"), ("Generics / WhereClause", "json_derive/parse/src/generic.rs"), ("Type / Name", "json_derive/parse/src/name.rs")], ["compiler diagnostics for generated crates that use the derives"])

p("C26", "The derives reject what they cannot support",
  "Deriving JsonEncode or JsonDecode on an enum, a tuple struct, a unit struct or a union, or on a struct with a #[key] that does not give a string literal (a number, a boolean, a byte string, a char, no value, a list), is a compile-time error. It never compiles into an implementation that drops or invents data.",
  ["programs"], "every unsupported kind of item and every non-string key",
  "no test compiles a program that should be rejected",
  ["json_derive/src/lib.rs", "json_derive/parse/src"], [("the panics of json_encode / json_decode", "json_derive/src/lib.rs")], ["exit status and diagnostics of the compiler on programs that must be rejected"])

p("C27", "quote! produces the token stream its template describes",
  "quote! copies every plain token and group of its template in order and expands the forms where they stand: #x and #(expr) to the tokens of the value's text, #(#b:..)+ and - to the body if the boolean is true or false, #(#o)? and #(#o:x ..)? only for Some, #(#i)*, #(#i) sep *, #(#i sep)* and #(#i:x ..)* once per element, with the separator only between elements or after each, ## to #, and the modifiers @literal, @params, @scope (which works like the C preprocessor: define, macros, undef, ifdef, ifndef, if, elif, else, endif, and also foreach, include, quote, execute), @span and @options likewise. Nothing is lost, duplicated or reordered, for every nesting of the forms; the tokens carry the span that @span gives, and a scope whose commands do not match up is refused.",
  ["programs", "inputs"], "templates combining all the forms, with sequences of any length and values of any kind",
  "the two doc tests of quote! do not even compile; the derives exercise a handful of templates",
  ["json_derive/quote/src/lib.rs"], [("quote!", "json_derive/quote/src/lib.rs")], ["the token stream produced inside the compiler against one built by hand"])

p("C28", "Item parsing keeps the whole declaration",
  "json_parse::parse reads every struct, enum (with decimal discriminants) and fn declaration (with plain names or self as parameters) into an Item that keeps its attributes, visibility, name, generics, where clause, fields, variants, parameters, return type and body; writing it with to_string and reading that again gives the same declaration, and the parts it reports (attributes, visibility, names, types, bounds, defaults, discriminants, qualifiers) are those of the source, in source order; bounds may change their order, commas without effect may go, #[a[..]] may become #[a(..)]. Any other single declaration is refused with an error or kept whole, and no sequence of tokens makes it panic or hang.",
  ["programs"], "generated struct, enum and fn declarations",
  "json_parse has no tests",
  ["json_derive/parse/src"], [("Parse for Item / Field / Generics / Name / Type / Meta", "json_derive/parse/src")], ["tokens of Item::to_string against the input tokens, inside the compiler"])

p("C29", "A failed operation changes nothing and says why",
  "When an editing or lookup operation returns an error, the value it was applied to is unchanged (except for containers created on the way to an index too large for memory), and the error's kind tells the cause: MissingKey for an absent key, IndexOutOfRange for an index outside the array, InvalidValueKind for a step or operation on the wrong kind of value, PathSyntaxError for a malformed path, ConvertError for a value that does not convert. The text of an error starts with the name of its kind.",
  ["inputs", "histories"], "every failing call of the API on every document",
  "tests only check that some calls fail, never what they leave behind or which kind they report",
  [L], [("error construction in Finder and the Json methods", L)], ["the whole value before and after each failing call, and the kind reported, against a reference"])

p("C30", "Equality and cloning follow content",
  "Two Json values are equal exactly when they have the same kind and content: numbers equal as doubles, arrays element by element, objects with the same keys and, per key, the same values in the same order; the order in which different keys were added does not matter. A clone is equal to its original and the two can be changed independently.",
  ["inputs", "histories"], "all pairs of values, near-equal pairs in particular (one element, one duplicate, one character, one kind apart)",
  "tests compare only a few parsed values with literals",
  [L], [("derived PartialEq and Clone on Json", L)], ["== and clone() against a reference comparison"], OBJ)

p("C31", "Attribute queries return exactly the attributes present",
  "For parsed attributes, get, idents, literals, pairs and groups of json_parse's Meta return exactly the plain names, literals, key-value pairs and groups written in the source, in order and with their values (strings and byte strings of any form without their quotes, escapes as written; decimal integers without separators up to i32::MAX in size and floats as f64, with their sign and any suffix left out; booleans), also inside nested groups; get gives the first of several with the same name. Asking for something that is not there, or is written in another form, gives None.",
  ["programs"], "generated attribute lists with nested groups, negative numbers, suffixed literals and string forms",
  "json_parse has no tests; the derives only ever ask for key and ignore",
  ["json_derive/parse/src/meta.rs"], [("Meta / MetaItem / Lit / MetaIndex", "json_derive/parse/src/meta.rs")], ["values reported inside the compiler for generated attributes"])

p("C32", "Parts of declarations parse alone and types come apart as written",
  "json_parse::parse also reads a part of a declaration alone (a Type, Generics, WhereClause, Fields, EnumValues, Params, Meta, StructItem, EnumItem or FnItem) and reports and writes the same as it would inside an item. A Type says whether it is a reference, with which lifetime and whether mut, whether dyn or impl, which name it is given to (Item = ..), and has one Name per bound, in order; a plain path comes apart into its prefixes, its last name and its arguments, each again a Type, a lifetime is reported as one, and any other form keeps its tokens. Two types are equal exactly when they have the same tokens (a comma before > aside).",
  ["programs"], "generated types of every form and generated parts of declarations, pairs of types that are the same or nearly so",
  "json_parse has no tests; the derives use only the text of a type",
  ["json_derive/parse/src/name.rs", "json_derive/parse/src/generic.rs"], [("Parse for Type / Name / Generics / Fields, PartialEq of Type", "json_derive/parse/src")], ["what is reported inside the compiler, against an independent reading of the same tokens"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P), "properties")
