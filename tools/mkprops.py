#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
L = "src/lib.rs"
D = "json_derive/src/lib.rs"
Q = "json_derive/quote/src/lib.rs"
PP = "json_derive/parse/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "The parser accepts exactly the JSON texts",
  "A text parses successfully exactly when it is a JSON text of RFC 8259 (insignificant whitespace being only space, tab, line feed and carriage return, allowed around every token) whose numbers lie within the range of a finite double and whose \\u escapes form Unicode scalar values, alone or as well-formed surrogate pairs. Every other text is refused with an error of one of the parse kinds (InvalidJson, ParseObjectError, ParseArrayError, ParseStringError, ParseNumberError, ParseBooleanError, ParseNullError).",
  ["inputs"], "every text (nesting as deep as the call stack allows, see C03)",
  "The unit tests try about a hundred literals; acceptance is a statement about every string, and the member splitter, the escapes, the number grammar and the whitespace skipping each have their own corner inputs.",
  [L], [("recursive descent by member splitting", L+": Json::parse, parse_array, parse_object, parse_string, parse_number, valid_number")], ["json::Json::parse", "str::parse::<json::Json>"])

p("C02", "A parsed document is the value the text denotes",
  "A text that parses yields the value it denotes: strings and keys with every escape resolved, each number as the double nearest to its decimal value, array elements in textual order, every object member under its key. When a key occurs more than once, the last occurrence is the current value and the earlier ones are kept as its previous values, in textual order.",
  ["inputs"], "every JSON text",
  "Tests compare a few dozen values; wrong values for particular escapes, surrogate pairs, number shapes, positions in nested containers or duplicate counts go unseen.",
  [L], [("escape decoding and UTF-8 assembly", L+": parse_string, parse_hex_digit, encode_utf8"), ("duplicate bookkeeping", L+": object_insert"), ("member splitting", L+": parse_array, parse_object")], ["json::Json::parse"])

p("C03", "No text, path or document operation makes the library crash",
  "Parsing any text, applying get, set or del with any path string, applying any document operation with any arguments to a value of any kind, and encoding or converting any document returns a value or an error: it never panics, aborts or runs forever. Left out are the indexing operators, which are documented to panic, and set or update with an array index so large that the padded array does not fit in memory.",
  ["inputs", "histories"], "every text, path, key, index and document, including unpaired quotes and brackets, escapes cut short, and hostile sizes",
  "A crash needs the one input nobody wrote down; tests list the inputs their author thought of, and none is malformed in two places at once or large.",
  [L], [("errors returned as Result throughout", L+": parse_*, Finder::*, Json::{insert..remove}")], ["json::Json::parse", "json::get", "json::set", "json::del", "Json::{insert,append,delete,push,replace,remove,index_and_merge,find,update,discard}"])

p("C04", "Encoded text is valid, sorted, printable-ASCII JSON of the same value",
  "Encoding any document gives a valid RFC 8259 JSON text made only of printable ASCII characters that denotes that document, with numbers that JSON cannot express (NaN, infinities) written as null. Members appear in ascending key order with the repeated values of one key next to each other, oldest first; members and elements are separated by a comma and one space, a key from its value by a colon and one space, and there is no other whitespace outside strings.",
  ["inputs"], "every document value, every character in strings and keys, every double",
  "Tests encode a handful of documents; escaping is decided per character and number printing per double.",
  [L], [("escape, hex and sorted member output", L+": impl ToString for Json, escape, hex")], ["json::encode", "Json::to_string"])

p("C05", "Encoding a document and parsing it back gives the same document",
  "For every document whose numbers are finite, parsing its encoded text gives back an equal document: same kinds, bit-identical numbers, identical strings and keys, same element order, and the same values in the same order for every repeated key. Encoding that result again gives the identical text.",
  ["inputs"], "every document value",
  "A round trip over all documents cannot be sampled by the tests' few fixed examples; encoder and parser can disagree on particular characters, numbers, nestings or duplicate counts.",
  [L], [("encoder and parser agree", L+": impl ToString for Json, Json::parse")], ["json::encode", "json::Json::parse"])

p("C06", "Every Unicode string survives as a value and as a key",
  "Every Rust string, of any length and with any characters (controls, quotes, backslashes, non-ASCII, characters outside the basic plane), encoded as a JSON string value or used as an object key and decoded again comes back identical. The same holds for a character written in a text in any of the forms JSON allows for it: raw, as a short escape, or as \\u escapes with hex digits of either case.",
  ["inputs"], "all Unicode scalar values, in every position of a string, and all strings over the escaping-relevant classes",
  "There are 1.1 million scalar values and several encodings of each; the tests use a few.",
  [L], [("escape / unescape", L+": escape, hex, parse_string, parse_hex_digit, encode_utf8")], ["json::encode", "json::decode::<String>", "json::decode::<HashMap<String, _>>"])

p("C07", "Paths address exactly the value their syntax names",
  "A path is one or more segments separated by dots: '#' followed by decimal digits selects an array element, anything else an object member, where '\\.' stands for a dot inside a key, a backslash at the start of a segment is dropped so that '\\#' and '\\\\' give keys starting with '#' and '\\', and any other backslash stands for itself. get returns the value reached by following the segments (the current value of a repeated key), or fails with MissingKey, IndexOutOfRange, InvalidValueKind (the segment does not fit the kind of value met) or PathSyntaxError (an empty path, or '#' not followed by an unsigned decimal index that fits usize).",
  ["inputs"], "every document and every path string ('#+5' with an explicit plus sign is left unspecified)",
  "Tests follow about ten paths over one document; escapes interact with separators and with the start of a segment in ways only enumeration covers.",
  [L], [("path parsing", L+": parse_path"), ("navigation", L+": Path::find, Finder::find")], ["Json::get", "json::get"])

p("C08", "set writes exactly the addressed value and nothing else",
  "For a syntactically valid path set always succeeds and returns the value it wrote, and a get with the same path then finds it: missing members are created, values of a kind that does not fit the segment are replaced by a new object or array, arrays are padded with null up to the index. Everything off the path is unchanged: other members, other elements and the previous values of keys passed on the way; the addressed key itself ends with only the new value. A path that is not valid fails with PathSyntaxError and changes nothing.",
  ["inputs", "histories"], "every document, every path, every value, and sequences of sets (the index small enough for the padded array to fit in memory)",
  "Tests set four or five paths in one document; the frame condition (nothing else changes) is about all other parts of every document.",
  [L], [("path update", L+": Path::update, Finder::update")], ["Json::set", "Json::update", "json::set"])

p("C09", "del removes exactly the addressed value and returns it",
  "del removes the addressed array element, the later ones moving down by one, or the addressed member with all its previous values, and returns the (current) value removed; everything else is unchanged. If the path does not lead to a value it fails with the same error kind a get of that path gives and changes nothing.",
  ["inputs", "histories"], "every document and every path, and sequences of deletions",
  "Tests delete three paths from one document.",
  [L], [("path removal", L+": Path::discard, Finder::discard")], ["Json::del", "Json::discard", "json::del"])

p("C10", "Documents behave as ordered multimaps and lists under any history",
  "After any sequence of operations a document equals the one a simple model gives: an object maps each key to its values in the order they were added (insert replaces them all by one, append adds one that becomes current, delete drops the key and succeeds even when it is absent), an array is a list (push at the end, replace in place, remove shifts down), get sees the current value and index_and_merge all values oldest first. Operations on a value of another kind fail with InvalidValueKind, array positions out of range with IndexOutOfRange, and index_and_merge of an absent key with MissingKey.",
  ["histories"], "every sequence of insert, append, delete, push, replace, remove, set, del, update and discard on any starting document",
  "Tests run one short fixed sequence per operation; interactions such as append after insert, delete then append, or set on a key with previous values need sequences.",
  [L], [("multimap with current value and list of previous values", L+": Json::{insert,append,add_option,delete,push,replace,remove,index_and_merge}, object_insert, Finder::*")], ["Json::{insert,append,add_option,delete,push,replace,remove,index_and_merge,set,del,update,discard}", "Json::to_string"])

p("C11", "The text-level functions agree with parse, operate, encode",
  "encode, decode, get, set and del on a JSON text give exactly the result of parsing the text, applying the document operation or conversion and encoding the outcome; the text passed in is not otherwise interpreted. They fail, with that step's error kind, exactly when one of the steps fails, and str::parse::<Json> agrees with Json::parse.",
  ["inputs"], "every text, path and value",
  "Tests call each once; the composition must hold when either the text or the path or the conversion is bad, for every combination.",
  [L], [("composition of steps", L+": encode, decode, get, set, del, impl FromStr for Json")], ["json::{encode,decode,get,set,del}"])

p("C12", "Typed values survive encode and decode",
  "For every supported type (all integer and float types, bool, String, Option, Vec, HashMap, lists of key/value pairs, Json and their nestings) decoding the encoded text of a value gives the value back (a list of key/value pairs up to the order of different keys), provided its numbers are finite and exactly representable as doubles, its keys survive conversion to and from strings, and an Option holds no value that itself encodes as null. Borrowed forms (&str, references to numbers and bools, slices) encode exactly like the owned ones.",
  ["inputs"], "every value of every supported type within the proviso",
  "Tests round-trip one or two values of a few types; integer limits, float patterns and nestings of containers are not sampled.",
  [L], [("ToJson/FromJson implementations", L+": number_imp!, impl ToJson/FromJson for ...")], ["json::encode", "json::decode", "ToJson::to_json", "FromJson::from_json"])

p("C13", "Decoding a document of the wrong shape fails with ConvertError",
  "Decoding fails with ConvertError whenever, at any depth, a value's kind does not fit the requested type: a number type needs a number, bool a boolean, String a string, Vec of values an array, Vec of pairs and HashMap an object whose every key converts to the key type, and Option accepts null (giving None) or whatever its content type accepts. When every kind fits, decoding succeeds, and no element or member is skipped.",
  ["inputs"], "every pair of document and supported type",
  "The tests check successful conversions almost only; a lenient conversion anywhere inside a container is invisible to them.",
  [L], [("kind checks in FromJson", L+": impl FromJson for ...")], ["json::decode", "Json::convert"])

p("C14", "Repeated keys keep all their values in order everywhere",
  "Repeated keys keep every value in the order given, whichever way they enter (parsed text, append, object!, encoding a list of key/value pairs) and whichever way they leave (encoded text, index_and_merge, decoding into a list of pairs), the last one being the one get, indexing and decoding into a map see. Decoding into a list of pairs yields each member exactly once, values of one key in order.",
  ["inputs", "histories"], "every number and interleaving of repeated keys and every combination of entry and exit",
  "One test checks three values of one key; order through every entry/exit pair and any count is a universal statement.",
  [L], [("previous values kept newest first in a linked list and reversed on output", L+": object_insert, impl ToString, index_and_merge, Vec<(K, V)> impls")], ["json::encode", "json::decode", "Json::index_and_merge", "object!"])

p("C15", "Macros, finders and index operators agree with the path functions",
  "find, find_mut, update and discard with a path given as a key, an index or a Path built by path! or append, the macros find!, update! and discard!, and the index operators reach, write and remove exactly what get, set and del do for the equivalent path string, and fail with the same error kind (the index operators panic where get fails). object! and array! build exactly the object and array whose members or elements were listed, in order, with repeated keys kept.",
  ["inputs", "programs"], "every document, every sequence of keys and indices, every member or element list",
  "Tests use each macro once or twice with literal arguments.",
  [L], [("Path/Finder conversions and macros", L+": Path, Finder, object!, array!, path!, find!, update!, discard!, impl Index/IndexMut")], ["find!/update!/discard!/path!/object!/array!", "Json::{find,find_mut,update,discard}", "Index/IndexMut"])

p("C16", "A failed operation leaves the document unchanged",
  "Whenever a document operation (insert, append, delete, push, replace, remove, set, del, discard, find_mut) returns an error, the document is exactly what it was before the call. Read operations never change it.",
  ["histories", "inputs"], "every document and every operation that fails on it, at any depth",
  "The tests never look at a document after an error.",
  [L], [("checks before mutation", L+": Json::{...}, Finder::{update,discard}")], ["Json operations followed by Json::to_string"])

p("C17", "Derived encoding writes each field once under its key",
  "A struct deriving JsonEncode encodes as an object with one member per field that is not marked ignore, named by the field's key attribute if it has one and otherwise by the field's name (a raw identifier without its r#), holding the field's own encoding; fields that share a key become repeated values in declaration order. Nothing else is added, whatever other attributes, comments, visibilities or generic parameters the struct has.",
  ["programs", "inputs"], "every struct with named fields and every value of it",
  "No test in the repository derives anything; the derive is a program over programs and needs many struct shapes.",
  [D, PP+"meta.rs", PP+"field.rs"], [("field table to add_option calls", D+": json_encode")], ["#[derive(JsonEncode)] + json::encode"])

p("C18", "Derived decoding fills each field from its own key",
  "A struct deriving JsonDecode decodes from an object by converting, for each field not marked ignore, the current value of its key (key attribute or field name), and giving ignored fields their Default; members it does not know are skipped. A missing key fails with MissingKey, a value that does not convert with that conversion's error, a document that is not an object with ConvertError; together with JsonEncode, decoding an encoded value gives it back (ignored fields reset).",
  ["programs", "inputs"], "every struct with named fields and every document",
  "No test in the repository derives anything.",
  [D, PP+"meta.rs", PP+"field.rs", PP+"name.rs"], [("field table to obj.get", D+": json_decode")], ["#[derive(JsonDecode)] + json::decode"])

p("C19", "The derives accept every ordinary struct with named fields",
  "Deriving JsonEncode and JsonDecode compiles for structs with any number of named fields (none included) of supported types, with any visibility, doc comments and other attributes (word, list or name = literal form, path names such as clippy::all included) on struct and fields, key and ignore attributes on any of them, and a trailing comma or none. Lifetime, type and const parameters with bounds, type defaults and where clauses on those parameters are accepted, and so are path, generic, tuple, reference and nested field types. The generated implementations carry the struct's own parameters and bounds.",
  ["programs"], "every struct declaration built from those features and written as plain tokens (not assembled from macro_rules fragments; references to references, for<'a> bounds, where clauses on other types and explicit &dyn are outside the supported syntax)",
  "No test in the repository derives anything; which declarations the hand-written item parser mishandles shows only when they are tried.",
  [D, PP+"lib.rs", PP+"generic.rs", PP+"name.rs", PP+"field.rs", PP+"meta.rs", PP+"utils.rs"], [("hand-written item parser", PP+"*.rs"), ("impl generation", D)], ["rustc on a crate using the derives"])

p("C20", "quote! reproduces the tokens it is given",
  "quote! of tokens that contain no '#' directive yields exactly those tokens in that order: identifiers, raw identifiers, lifetimes, literals, every operator including multi-character ones, and groups of any nesting, as the compiler itself would tokenize them.",
  ["programs", "inputs"], "every token sequence without directives",
  "json_quote has no tests that run; each operator and each neighbourhood of tokens takes a different macro arm.",
  [Q], [("__append_to_token! arms per operator and delimiter", Q)], ["json_quote::quote!"])

p("C21", "quote! interpolates variables exactly where they are written",
  "In quote!, #var and #(expr) are replaced by the tokens of the value's string form, #(#opt)? by the value of Some or nothing for None, #(#flag: ...)+ and #(#flag: ...)- by the tokens when the flag is true respectively false, #(#iter)* by every element in order with the given separator (any token but ? and *, and in the :name forms also not + and -, which end a directive) only between elements, and the #(#x:name ...) forms by the given tokens with #name (or an expression over name) replaced for each. All other tokens stay where they are.",
  ["programs", "inputs"], "every placement of the documented directives among other tokens and every value (a separator written inside the parentheses follows every element; ## stands for #)",
  "json_quote has no tests that run.",
  [Q], [("directive arms of __append_to_token!", Q)], ["json_quote::quote!"])

p("C22", "Parsed items print back as the same item",
  "json_parse parses every struct, enum and function item made of: attributes (word, list, name = literal, path names), pub with or without a scope, async/const/unsafe/extern \"ABI\", an identifier, lifetime, type and const parameters with trait and lifetime bounds and type defaults, named, tuple or no fields, enum variants of each form with integer discriminants, plain named or self parameters, return type, where clause and body, with types that are paths with generics and associated-type arguments, references, tuples, arrays, slices, dyn and impl types and Fn signatures. The parts of the parsed item name exactly what the source says, in order. Printing it gives source whose tokens are those of the item, trailing commas aside and bounds in the order traits, lifetimes, ?Sized.",
  ["programs"], "every item built from the supported syntax: not where clauses on types other than parameters, for<'a>, &dyn, references to references, the never type, raw pointers, qualified function pointers, mut self, pattern or attributed parameters, extern without ABI, non-decimal discriminants, explicit Sized, empty <>, except inside tuple, array and function types, whose tokens are kept as they are",
  "json_parse has no tests.",
  [PP+"lib.rs", PP+"generic.rs", PP+"name.rs", PP+"field.rs", PP+"meta.rs", PP+"enum_value.rs", PP+"param.rs", PP+"utils.rs"], [("hand-written parser over token trees", PP+"*.rs")], ["json_parse::parse", "ToString of Item and its parts"])

p("C23", "Attribute lookup finds what the attributes say",
  "Looking up an attribute on a parsed item, field or variant, by name, by position, by group or by nested lookup inside a group, yields exactly what the source says there (the first one if a name is repeated), for any number of attributes in any order, and nothing for names that do not occur. A string or byte string literal gives the text or bytes between its quotes as written, a decimal integer of magnitude up to 2147483647, a float or a boolean its value with its sign, whatever its type suffix.",
  ["programs"], "every list of attributes in the supported forms",
  "json_parse has no tests.",
  [PP+"meta.rs"], [("Meta/Lit accessors", PP+"meta.rs")], ["json_parse::meta::Meta"])

p("C24", "Equal documents encode to the identical text",
  "The encoded text of a document depends only on the document: two documents that are equal (numbers compared bit for bit, so that 0 and -0 differ) encode identically, whatever order members were added in, whatever was added and removed in between, whichever way the document came about, and whatever order the hash map iterates in. Encoding the same document twice gives the same text.",
  ["histories", "inputs"], "every document and every history and hash seed leading to it",
  "Hash seeds change from run to run; a dependence on iteration order shows only for particular seeds and at least two keys.",
  [L], [("members sorted before output", L+": impl ToString for Json")], ["json::encode", "Json::to_string"])

p("C25", "Every finite double survives encoding bit for bit",
  "Every finite f64 (including subnormals, negative zero and the largest magnitudes) encodes to a JSON number that parses back to the same bits; every f32 and every integer of magnitude at most 2^53 of any integer type decodes back to itself. Decimal texts decode to the nearest double, ties to even.",
  ["inputs"], "all 2^64 double patterns and all decimal texts, explored over all exponents with structured mantissas and, for f32 in the thorough tier, completely",
  "Tests compare about ten numbers.",
  [L], [("Display and FromStr of f64 plus the number grammar", L+": impl ToString, parse_number, valid_number")], ["json::encode", "json::decode::<f64>"])

p("C26", "quote! modifiers and scope commands do what they say",
  "quote!(@literal: ...), also written #(@literal: ...) among other tokens, gives its tokens as written, '#' included; @params(x, y = expr) gives its tokens with #x, at any depth, replaced by the variable's or expression's tokens (a # name that is no parameter vanishes) and rebinds nothing after it; @span(s) gives every token the span s; @options combines these. @scope runs its commands in order as a preprocessor: a { } block emits its tokens with #name replaced by its current definition (nothing if there is none) and #(m(args)) by the body of the macro m with its parameters replaced by the arguments; #define and #undef change definitions, #quote and #include emit tokens, #execute runs a statement. #if, #ifdef or #ifndef with #elif, #else and #endif, also nested, takes exactly the first branch whose condition holds, or else the #else branch, and the others have no effect. #foreach emits its block once per element, with its name bound to the element, then restores the name.",
  ["programs", "inputs"], "every sequence of commands over every kind of token (tokens of definitions, arguments and values hold no '#' themselves; #name in a definition or #quote is a variable of the program; macro arguments are not empty, as many as parameters, their angle brackets balanced; inside #foreach stands one block)",
  "json_quote has no tests that run; the commands interact, and what a branch must not do shows only in combinations.",
  [Q], [("__scope_command!, @literal/@params/@scope/@span/@options arms", Q), ("__translate, split_tokens_by", Q)], ["json_quote::quote!"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
