//! C17, C18, C19: programs that use the derives, compiled against /repo's current
//! crates and run; every field table of a bounded language of structs, and for each all
//! small values and documents.
use crate::engine::{fail, js, Fail, Run, Tally};
use crate::rc::{self, Kit, Pool};
use crate::rv::{self, Rv};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::process::Command;

// ---------------------------------------------------------------- types of fields

struct Ty {
    src: &'static str,
    /// (expression, the JSON it encodes to)
    picks: &'static [(&'static str, &'static str)],
    default: &'static str,
    /// a value of the wrong kind
    bad: &'static [&'static str],
    conv: fn(&Rv) -> Result<String, &'static str>,
}
const CE: &str = "ConvertError";
const MK: &str = "MissingKey";

fn c_u8(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Num(n) => Ok(format!("{}", *n as u8)),
        _ => Err(CE),
    }
}
fn c_str(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Str(s) => Ok(format!("{:?}", s)),
        _ => Err(CE),
    }
}
fn c_bool(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Bool(b) => Ok(format!("{:?}", b)),
        _ => Err(CE),
    }
}
fn c_f64(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Num(n) => Ok(format!("{:?}", n)),
        _ => Err(CE),
    }
}
fn c_opt(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Null => Ok("None".into()),
        Rv::Num(n) => Ok(format!("Some({})", *n as i32)),
        _ => Err(CE),
    }
}
fn c_vecbool(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Arr(a) => Ok(format!("[{}]", a.iter().map(c_bool).collect::<Result<Vec<_>, _>>()?.join(", "))),
        _ => Err(CE),
    }
}
fn c_inner(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Obj(m) => match m.get("p") {
            Some(v) => Ok(format!("Inner {{ p: {} }}", c_u8(v.last().unwrap())?)),
            None => Err(MK),
        },
        _ => Err(CE),
    }
}
fn c_map(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Obj(m) => {
            let l: Vec<String> = m.iter().map(|(k, v)| Ok(format!("{:?}: {}", k, c_u8(v.last().unwrap())?))).collect::<Result<_, &'static str>>()?;
            Ok(format!("{{{}}}", l.join(", ")))
        }
        _ => Err(CE),
    }
}
fn c_pairs(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Obj(m) => {
            let mut l = vec![];
            for (k, vs) in m {
                for v in vs {
                    l.push(format!("({:?}, {})", k, c_u8(v)?));
                }
            }
            Ok(format!("[{}]", l.join(", ")))
        }
        _ => Err(CE),
    }
}
fn c_json(v: &Rv) -> Result<String, &'static str> {
    Ok(show_json(v))
}
fn show_json(v: &Rv) -> String {
    match v {
        Rv::Null => "null".into(),
        Rv::Bool(b) => format!("{:?}", b),
        Rv::Num(n) => format!("{:?}", n),
        Rv::Str(s) => format!("{:?}", s),
        Rv::Arr(a) => format!("[{}]", a.iter().map(show_json).collect::<Vec<_>>().join(",")),
        Rv::Obj(m) => {
            let mut l: Vec<String> = m.iter().map(|(k, v)| format!("{:?}:{}", k, v.iter().map(show_json).collect::<Vec<_>>().join("|"))).collect();
            l.sort();
            format!("{{{}}}", l.join(","))
        }
    }
}
fn c_vv(v: &Rv) -> Result<String, &'static str> {
    match v {
        Rv::Arr(a) => {
            let l: Vec<String> = a
                .iter()
                .map(|x| match x {
                    Rv::Null => Ok("None".to_string()),
                    Rv::Arr(b) => Ok(format!("Some([{}])", b.iter().map(c_u8).collect::<Result<Vec<_>, _>>()?.join(", "))),
                    _ => Err(CE),
                })
                .collect::<Result<_, _>>()?;
            Ok(format!("[{}]", l.join(", ")))
        }
        _ => Err(CE),
    }
}

const N_WORD_TYPES: usize = 10;
static TYS: &[Ty] = &[
    Ty { src: "u8", picks: &[("7", "7"), ("0", "0"), ("255", "255")], default: "0", bad: &["\"7\"", "null"], conv: c_u8 },
    Ty { src: "String", picks: &[("String::from(\"s\")", "\"s\""), ("String::new()", "\"\""), ("String::from(\"\\\"\\\\\\n{}\u{e9}\")", "\"\\\"\\\\\\n{}\u{e9}\"")], default: "\"\"", bad: &["7", "[]"], conv: c_str },
    Ty { src: "Option<i32>", picks: &[("Some(7)", "7"), ("None", "null"), ("Some(0)", "0")], default: "None", bad: &["true", "{}"], conv: c_opt },
    Ty { src: "Vec<bool>", picks: &[("vec![true, false]", "[true,false]"), ("vec![]", "[]"), ("vec![true]", "[true]")], default: "[]", bad: &["[true,1]", "{}"], conv: c_vecbool },
    Ty { src: "Inner", picks: &[("Inner { p: 3 }", "{\"p\":3}"), ("Inner { p: 0 }", "{\"p\":0}"), ("Inner { p: 9 }", "{\"p\":9}")], default: "Inner { p: 0 }", bad: &["{}", "{\"p\":\"x\"}"], conv: c_inner },
    Ty { src: "HashMap<String, u8>", picks: &[("[(\"m\".to_string(), 1)].into_iter().collect()", "{\"m\":1}"), ("HashMap::new()", "{}"), ("[(\"\".to_string(), 2)].into_iter().collect()", "{\"\":2}")], default: "{}", bad: &["{\"m\":true}", "[]"], conv: c_map },
    Ty { src: "bool", picks: &[("true", "true"), ("false", "false")], default: "false", bad: &["0", "\"true\""], conv: c_bool },
    Ty { src: "f64", picks: &[("3.0", "3"), ("0.0", "0"), ("12.0", "12")], default: "0.0", bad: &["[3]", "true"], conv: c_f64 },
    Ty { src: "Json", picks: &[("json::Json::Null", "null"), ("json::Json::Array(vec![json::Json::Boolean(true)])", "[true]"), ("json::Json::Number(4.0)", "4")], default: "null", bad: &[], conv: c_json },
    Ty { src: "Vec<(String, u8)>", picks: &[("vec![(\"m\".to_string(), 1)]", "{\"m\":1}"), ("vec![]", "{}"), ("vec![(\"m\".to_string(), 1), (\"m\".to_string(), 2)]", "{\"m\":1,\"m\":2}")], default: "[]", bad: &["{\"m\":null}", "3"], conv: c_pairs },
    Ty { src: "::std::vec::Vec<Option<Vec<u8>>>", picks: &[("vec![None, Some(vec![1])]", "[null,[1]]"), ("vec![]", "[]"), ("vec![Some(vec![])]", "[[]]")], default: "[]", bad: &["[1]", "null"], conv: c_vv },
];

fn prelude() -> String {
    let mut o = String::from(
        "pub use std::collections::HashMap;\npub use json::Json;\n#[derive(Debug, Clone, PartialEq)]\npub struct Inner { pub p: u8 }\nimpl Default for Inner { fn default() -> Self { Inner { p: 0 } } }\n\
         impl json::ToJson for Inner { fn to_json(&self) -> json::Json { json::ToJson::to_json(&vec![(\"p\", self.p)]) } }\n\
         impl json::FromJson for Inner { fn from_json(j: &json::Json) -> Result<Self, json::Error> { match j { json::Json::Object(m) => match m.get(\"p\") { Some((v, _)) => Ok(Inner { p: <u8 as json::FromJson>::from_json(v)? }), None => Err(json::Error::new(json::ErrorKind::MissingKey, String::new())) }, _ => Err(json::Error::new(json::ErrorKind::ConvertError, String::new())) } } }\n\
         pub fn show_json(j: &json::Json) -> String { match j { json::Json::Null => \"null\".into(), json::Json::Boolean(b) => format!(\"{:?}\", b), json::Json::Number(n) => format!(\"{:?}\", n), json::Json::String(s) => format!(\"{:?}\", s), \
         json::Json::Array(v) => format!(\"[{}]\", v.iter().map(show_json).collect::<Vec<_>>().join(\",\")), json::Json::Object(m) => { let mut l: Vec<String> = m.iter().map(|(k, v)| { let mut w: Vec<String> = v.1.iter().rev().map(show_json).collect(); w.push(show_json(&v.0)); format!(\"{:?}:{}\", k, w.join(\"|\")) }).collect(); l.sort(); format!(\"{{{}}}\", l.join(\",\")) } } }\n\
         pub trait F: Sized { fn pick(i: usize) -> Self; fn show(&self) -> String; }\n",
    );
    for t in TYS {
        let show = if t.src == "Json" { "show_json(self)" } else { "format!(\"{:?}\", self)" };
        o.push_str(&format!("impl F for {} {{ fn pick(i: usize) -> Self {{ match i {{ ", t.src));
        for (i, p) in t.picks.iter().enumerate() {
            if i + 1 < t.picks.len() {
                o.push_str(&format!("{} => {}, ", i, p.0));
            } else {
                o.push_str(&format!("_ => {} ", p.0));
            }
        }
        o.push_str(&format!("}} }} fn show(&self) -> String {{ {} }} }}\n", show));
    }
    o.push_str(
        "pub type Enc = fn(&[usize]) -> String;\npub type Dec = fn(&str) -> Result<Vec<String>, json::Error>;\npub type Row = (Option<Enc>, Option<Dec>, Option<fn(&[usize]) -> Result<Vec<String>, json::Error>>);\n",
    );
    o
}

// ---------------------------------------------------------------- shapes

#[derive(Clone)]
struct Field {
    attrs: String,
    vis: &'static str,
    name: String,
    key: String,
    ignored: bool,
    ty: usize,
}
#[derive(Clone)]
struct Shape {
    spec: String,
    fields: Vec<Field>,
    decl: String,
    /// the struct's name in expressions
    name: String,
    /// two derive attributes, one, or a path
    derive: usize,
}

const NAMES: &[&str] = &["a", "r#type", "map", "\u{e9}_x", "obj", "js", "v", "other", "json", "k1", "_u", "x"];

/// (attributes, key; "" is the field's name, ignored)
const CONFIGS: &[(&str, &str, bool)] = &[
    ("", "", false),
    ("#[key = \"k\"]", "k", false),
    ("#[ignore]", "", true),
    ("#[key = \"x.y\"]", "x.y", false),
    ("#[allow(dead_code)] #[key = \"q\\\"b\\\\s\"]\n    /// text\n   ", "q\"b\\s", false),
    ("#[key = r#\"w\"x\"#] #[ignore]", "", true),
    ("/// ignore\n    #[ignore]", "", true),
    ("#[key = \"a\"]", "a", false),
    ("#[doc = \"ignore\"]", "", false),
    ("/// key\n    #[doc(alias = \"ignore\", hidden)]", "", false),
];

/// (literal, what it denotes)
const KEYS: &[(&str, &str)] = &[
    ("\"\"", ""), ("\" \"", " "), ("\"a b\"", "a b"), ("\"\u{e9}\"", "\u{e9}"), ("\"\\u{e9}\"", "\u{e9}"), ("\"\\x41\"", "A"), ("\"\\n\"", "\n"),
    ("\"\\\\\"", "\\"), ("\"\\\"\"", "\""), ("\"\\\"\\\"\"", "\"\""), ("r\"raw\\n\"", "raw\\n"), ("r#\"a\"b\"#", "a\"b"), ("r\"\"", ""), ("\"a#b\"", "a#b"), ("\"//\"", "//"),
    ("\"/*\"", "/*"), ("\"{}\"", "{}"), ("\"{0}\"", "{0}"), ("\"{b}\"", "{b}"), ("\"%s\"", "%s"), ("\"#x\"", "#x"), ("\"#(x)\"", "#(x)"), ("\"key\"", "key"), ("\"ignore\"", "ignore"),
    ("\"'\"", "'"), ("\"\\'\"", "'"), ("\"\\t\"", "\t"), ("\"\\0\"", "\0"), ("\"a\\\n        b\"", "ab"), ("\"::\"", "::"), ("\",\"", ","), ("\"]\"", "]"), ("\"}\"", "}"), ("\"r#type\"", "r#type"),
    ("\"\u{65e5}\u{672c}\"", "\u{65e5}\u{672c}"), ("\"\u{1d11e}\"", "\u{1d11e}"), ("\"a\n  b\"", "a\n  b"), ("\"x.y[0]\"", "x.y[0]"), ("\"[]\"", "[]"), ("\"0\"", "0"), ("\"A key that is rather long, with words: and, punctuation!\"", "A key that is rather long, with words: and, punctuation!"),
    ("\"\\u{1F600}\"", "\u{1f600}"), ("\"\\u{7f}\"", "\u{7f}"), ("\"\\r\\n\"", "\r\n"), ("r#\"\"\"#", "\""), ("r#\"\\\"#", "\\"), ("\"b\"", "b"), ("\"B\"", "B"),
];

const SPECIAL_NAMES: &[(&str, &str)] = &[
    ("type_", "type_"), ("r#type", "type"), ("r#fn", "fn"), ("r#match", "match"), ("r#struct", "struct"), ("_x", "_x"), ("__", "__"), ("x1", "x1"), ("\u{e9}", "\u{e9}"), ("\u{65e5}\u{672c}", "\u{65e5}\u{672c}"),
    ("map", "map"), ("js", "js"), ("obj", "obj"), ("v", "v"), ("json", "json"), ("other", "other"), ("key", "key"), ("ignore", "ignore"), ("r#async", "async"), ("X", "X"), ("std", "std"), ("to_json", "to_json"),
    ("from_json", "from_json"), ("add_option", "add_option"), ("r#dyn", "dyn"), ("r#try", "try"), ("String", "String"), ("u8", "u8"), ("r#abc", "abc"), ("get", "get"), ("union", "union"), ("auto", "auto"), ("default", "default"),
    ("raw", "raw"), ("r", "r"), ("b", "b"), ("Ok", "Ok"), ("a_field_with_a_rather_long_name_0123456789", "a_field_with_a_rather_long_name_0123456789"), ("r#r", "r"), ("macro_rules", "macro_rules"), ("format", "format"),
    ("r#where", "where"), ("r#pub", "pub"), ("r#mut", "mut"), ("r#ref", "ref"), ("r#move", "move"), ("r#in", "in"), ("r#impl", "impl"), ("r#const", "const"), ("r#unsafe", "unsafe"), ("r#extern", "extern"), ("r#true", "true"),
];

/// (attributes, visibility and name before the braces, name in expressions)
const DECLS: &[(&str, &str, &str)] = &[
    ("", "pub struct S", "S"),
    ("", "struct S", "S"),
    ("", "pub(crate) struct S", "S"),
    ("", "pub(super) struct S", "S"),
    ("/// ignore\n#[doc = \"key\"]\n#[allow(dead_code)]", "pub struct S", "S"),
    ("#[key = \"zz\"]", "pub struct S", "S"),
    ("#[ignore]", "pub struct S", "S"),
    ("#[ignore] #[key = \"b\"] #[repr(C)]", "pub struct S", "S"),
    ("#[cfg_attr(all(), allow(dead_code))] #[derive(Clone)]", "pub struct S", "S"),
    ("", "pub struct r#struct", "r#struct"),
    ("", "pub struct \u{c9}", "\u{c9}"),
    ("", "pub struct Result_", "Result_"),
    ("#[non_exhaustive] #[must_use = \"it\"]", "pub struct S", "S"),
    ("", "pub(in super::super::sub) struct S", "S"),
];

/// (attribute, key it gives, marks the field ignored, may be repeated)
const ATTRS: &[(&str, &str, bool, bool)] = &[
    ("#[ignore]", "", true, false),
    ("#[key = \"x1\"]", "x1", false, true),
    ("#[key = \"abc\"]", "abc", false, true),
    ("#[deprecated]", "", false, false),
    ("#[allow(dead_code)]", "", false, false),
    ("#[rustfmt::skip]", "", false, false),
    ("/// text\n    ", "", false, true),
    ("#[doc = \"ignore\"]", "", false, false),
    ("#[doc(hidden)]", "", false, false),
    ("#[cfg(all())]", "", false, false),
];

/// keys that are easily taken for one another
const NEAR: &[&str] = &["", " ", "a", "A", "a ", "ab", "b", "ba", "aa", "a.b", "r#a", "\u{e9}", "e\u{301}", "0", "00", "a_field_name_longer_than_thirty_two_characters", "a_field_name_longer_than_thirty_two_characterz"];
const NEARN: &[&str] = &["a", "ab", "b", "ba", "aa", "A", "a_", "_a", "key", "keys", "ke", "r#type", "type_", "r#ref", "a1", "a2", "a10", "\u{e9}"];

fn plain(name: &str, ty: usize) -> Field {
    Field { attrs: String::new(), vis: "pub ", name: name.into(), key: name.strip_prefix("r#").unwrap_or(name).into(), ignored: false, ty }
}

/// The shape a specification names; the same in every tier.
fn shape(spec: &str) -> Shape {
    let (kind, rest) = spec.split_once(':').expect("spec");
    let nums: Vec<usize> = rest.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("spec number")).collect();
    let mut sh = Shape { spec: spec.into(), fields: vec![], decl: "pub struct S".into(), name: "S".into(), derive: 0 };
    match kind {
        // a word over field configurations, names and types by position
        "w" => {
            let h: usize = nums.iter().fold(nums.len(), |a, x| a * 7 + x);
            for (i, c) in nums.iter().enumerate() {
                let (attrs, key, ignored) = CONFIGS[*c];
                let name = NAMES[(h + i * 5) % NAMES.len()];
                sh.fields.push(Field {
                    attrs: attrs.into(),
                    vis: ["pub ", "", "pub(crate) "][(h + i) % 3],
                    name: name.into(),
                    key: if key.is_empty() { name.strip_prefix("r#").unwrap_or(name).into() } else { key.into() },
                    ignored,
                    ty: (h / 12 + i * 3) % N_WORD_TYPES,
                });
            }
            sh.derive = h % 3;
        }
        // many fields
        "n" => {
            for i in 0..nums[0] {
                let mut f = plain(&format!("f{}", i), if i % 9 == 8 { 1 } else { 0 });
                if i % 7 == 3 {
                    f.attrs = format!("#[key = \"k{}\"]", i);
                    f.key = format!("k{}", i);
                }
                if i % 11 == 5 {
                    f.attrs = "#[ignore]".into();
                    f.ignored = true;
                }
                sh.fields.push(f);
            }
        }
        // special keys, before and after another field; attribute before or after others
        "k" => {
            let (lit, key) = KEYS[nums[0]];
            let mut f = plain("f", 1);
            f.attrs = match nums[1] {
                0 => format!("#[key = {}]", lit),
                1 => format!("/// d\n#[allow(unused)]\n#[key={}] #[doc(hidden)]", lit),
                _ => format!("#[key = {}] #[key = \"second\"]", lit),
            };
            f.key = key.into();
            let g = plain("b", 0);
            sh.fields = if nums[1] == 1 { vec![g, f] } else { vec![f, g] };
        }
        // special names
        "m" => {
            let (name, key) = SPECIAL_NAMES[nums[0]];
            let mut f = plain(name, 0);
            f.key = key.into();
            match nums[1] {
                0 => {}
                1 => {
                    f.attrs = "#[key = \"kk\"]".into();
                    f.key = "kk".into();
                }
                _ => {
                    f.attrs = "#[ignore]".into();
                    f.ignored = true;
                }
            }
            sh.fields = vec![f, plain("zz", 1)];
        }
        // words over attributes, between fields whose names and keys begin alike
        "a" => {
            let mut f = plain("ab", 1);
            let mut key = "";
            for i in &nums {
                let (a, k, ig, _) = ATTRS[*i];
                f.attrs.push_str(a);
                f.attrs.push(' ');
                if key.is_empty() {
                    key = k;
                }
                f.ignored |= ig;
            }
            if !key.is_empty() {
                f.key = key.into();
            }
            sh.fields = vec![plain("a", 0), f, plain("abc", 0)];
        }
        // two fields with keys, or names, that are easily taken for one another
        "p" => {
            let mut f = plain("f", 0);
            let mut g = plain("g", 1);
            f.attrs = format!("#[key = {:?}]", NEAR[nums[0]]);
            f.key = NEAR[nums[0]].into();
            g.attrs = format!("#[key = {:?}]", NEAR[nums[1]]);
            g.key = NEAR[nums[1]].into();
            if nums[0] == nums[1] {
                g.ty = 0;
            }
            sh.fields = vec![f, g];
        }
        "q" => {
            let mut f = plain(NEARN[nums[0]], 0);
            let g = plain(NEARN[nums[1]], 1);
            if nums[2] > 0 {
                f.attrs = "#[ignore]".into();
                f.ignored = true;
            }
            sh.fields = vec![f, g];
        }
        // long keys and names, equal but for the last character
        "l" => {
            let long = "k".repeat(nums[0]);
            for (i, c) in ["a", "b", ""].iter().enumerate() {
                let n = format!("{}{}", long, c);
                let mut f = plain(&if nums[1] == 0 || n.is_empty() { format!("f{}", i) } else { n.clone() }, i % 2);
                if nums[1] == 0 {
                    f.attrs = format!("#[key = \"{}\"]", n);
                    f.key = n;
                }
                sh.fields.push(f);
            }
        }
        // a key among many attributes
        "h" => {
            let mut f = plain("f", 1);
            for i in 0..nums[0] {
                if i == nums[1].min(nums[0] - 1) {
                    f.attrs.push_str("#[key = \"kk\"]\n");
                    f.key = "kk".into();
                }
                f.attrs.push_str(["/// d\n", "#[allow(unused)]\n", "#[rustfmt::skip]\n", "#[doc(hidden)]\n", "#[rustfmt::skip]\n", "#[cfg_attr(all(), doc = \"key\")]\n"][i % 6]);
            }
            let mut g = plain("g", 0);
            g.attrs = f.attrs.lines().filter(|x| !x.contains("kk")).collect::<Vec<_>>().join("\n") + "\n#[ignore]";
            g.ignored = true;
            sh.fields = vec![f, g];
        }
        // documents of many members
        "x" => sh.fields = vec![plain("a", 0), plain("b", 1), plain("c", 4), plain("d", 2), plain("e", 8)],
        // struct declarations
        "v" => {
            let (a, d, n) = DECLS[nums[0]];
            sh.decl = format!("{}\n{}", a, d);
            sh.name = n.into();
            sh.derive = nums[1];
            sh.fields = vec![plain("b", 0), plain("c", 1)];
            sh.fields[1].attrs = "#[ignore]".into();
            sh.fields[1].ignored = true;
        }
        // each type
        "t" => {
            let mut f = plain("f", nums[0]);
            if nums[1] == 1 {
                f.attrs = "#[ignore]".into();
                f.ignored = true;
            }
            sh.fields = vec![f, plain("g", nums[2])];
        }
        _ => panic!("spec {}", spec),
    }
    // Json has no Default
    for f in &mut sh.fields {
        if f.ignored && TYS[f.ty].src == "Json" {
            f.ty = 0;
        }
    }
    sh
}

fn specs(thorough: bool) -> Vec<String> {
    let mut v = vec![];
    let n = CONFIGS.len();
    for len in 0..=(if thorough { 4 } else { 3 }) {
        for i in 0..n.pow(len) {
            let mut i = i;
            let mut w = vec![];
            for _ in 0..len {
                w.push((i % n).to_string());
                i /= n;
            }
            v.push(format!("w:{}", w.join(",")));
        }
    }
    let na = ATTRS.len();
    for len in 1..=(if thorough { 4 } else { 3 }) {
        for i in 0..na.pow(len) {
            let w: Vec<usize> = (0..len).map(|p| i / na.pow(p) % na).collect();
            if w.iter().enumerate().all(|(n, x)| ATTRS[*x].3 || !w[..n].contains(x)) {
                v.push(format!("a:{}", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
            }
        }
    }
    for i in 0..NEAR.len() {
        for j in 0..NEAR.len() {
            v.push(format!("p:{},{}", i, j));
        }
    }
    for i in 0..NEARN.len() {
        for j in 0..NEARN.len() {
            if i != j {
                v.push(format!("q:{},{},{}", i, j, (i + j) % 2));
            }
        }
    }
    for i in (0..=40).chain([48, 55, 63, 64, 65]).chain(if thorough { vec![100, 127, 128, 129] } else { vec![] }) {
        v.push(format!("n:{}", i));
    }
    for i in (0..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        v.push(format!("l:{},0", i));
        v.push(format!("l:{},1", i));
    }
    for i in (1..=12).chain([16, 17, 32, 33, 64, 65]) {
        for j in [0, 1, i / 2, i - 1] {
            if i > 2 || j == 0 {
                v.push(format!("h:{},{}", i, j));
            }
        }
    }
    v.push("x:".into());
    for i in 0..KEYS.len() {
        for j in 0..3 {
            v.push(format!("k:{},{}", i, j));
        }
    }
    for i in 0..SPECIAL_NAMES.len() {
        for j in 0..3 {
            v.push(format!("m:{},{}", i, j));
        }
    }
    for i in 0..DECLS.len() {
        for j in 0..3 {
            v.push(format!("v:{},{}", i, j));
        }
    }
    for i in 0..TYS.len() {
        for j in 0..2 {
            for k in 0..TYS.len() {
                v.push(format!("t:{},{},{}", i, j, k));
            }
        }
    }
    v
}

impl Shape {
    fn source(&self, n: usize, encode: bool, decode: bool) -> String {
        let mut o = format!("pub mod s{} {{\nuse pre::*;\n", n);
        let mut d = vec![];
        if encode {
            d.push("JsonEncode");
        }
        if decode {
            d.push("JsonDecode");
        }
        match self.derive {
            0 => o.push_str(&format!("use json::{{{}}};\n#[derive({})]\n", d.join(", "), d.join(", "))),
            1 => {
                for x in &d {
                    o.push_str(&format!("#[derive(json_derive::{})]\n", x));
                }
            }
            _ => {
                o.push_str("use json::*;\n");
                d.reverse();
                o.push_str(&format!("#[derive(Debug, {},)]\n", d.join(",")));
            }
        }
        o.push_str(&self.decl);
        o.push_str(" {\n");
        for (i, f) in self.fields.iter().enumerate() {
            let comma = if i + 1 == self.fields.len() && self.fields.len() % 2 == 1 { "" } else { "," };
            o.push_str(&format!("    {} {}{}: {}{}\n", f.attrs, f.vis, f.name, TYS[f.ty].src, comma));
        }
        o.push_str("}\n");
        let make: Vec<String> = self.fields.iter().enumerate().map(|(i, f)| format!("{}: F::pick(p[{}])", f.name, i)).collect();
        let show: Vec<String> = self.fields.iter().map(|f| format!("F::show(&x.{})", f.name)).collect();
        if encode {
            o.push_str(&format!("fn enc(p: &[usize]) -> String {{ let _ = p; json::encode(&{} {{ {} }}) }}\n", self.name, make.join(", ")));
        }
        if decode {
            o.push_str(&format!("fn shows(x: {}) -> Vec<String> {{ let _ = &x; vec![{}] }}\n", self.name, show.join(", ")));
            o.push_str(&format!("fn dec(t: &str) -> std::result::Result<Vec<String>, json::Error> {{ json::decode::<{}>(t).map(shows) }}\n", self.name));
        }
        if encode && decode {
            o.push_str(&format!("fn trip(p: &[usize]) -> std::result::Result<Vec<String>, json::Error> {{ let _ = p; json::decode::<{}>(&json::encode(&{} {{ {} }})).map(shows) }}\n", self.name, self.name, make.join(", ")));
        }
        let on = |b: bool, x: &str| if b { format!("Some({} as _)", x) } else { "None".into() };
        o.push_str(&format!("pub const ROW: Row = ({}, {}, {});\n}}\n", on(encode, "enc"), on(decode, "dec"), on(encode && decode, "trip")));
        o
    }

    fn encoded(&self, p: &[usize]) -> Rv {
        let mut m: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
        for (f, i) in self.fields.iter().zip(p) {
            if !f.ignored {
                let t = &TYS[f.ty];
                m.entry(f.key.clone()).or_default().push(rv::parse(t.picks[(*i).min(t.picks.len() - 1)].1).unwrap());
            }
        }
        Rv::Obj(m)
    }
    /// The fields, or the kinds of error that may be reported.
    fn decoded(&self, doc: &Rv) -> Result<Vec<String>, HashSet<&'static str>> {
        let m = match doc {
            Rv::Obj(m) => m,
            _ => return Err([CE].into()),
        };
        let mut bad = HashSet::new();
        let mut out = vec![];
        for f in &self.fields {
            let t = &TYS[f.ty];
            if f.ignored {
                out.push(t.default.to_string());
                continue;
            }
            match m.get(&f.key) {
                None => {
                    bad.insert(MK);
                }
                Some(v) => match (t.conv)(v.last().unwrap()) {
                    Ok(s) => out.push(s),
                    Err(k) => {
                        bad.insert(k);
                    }
                },
            }
        }
        if bad.is_empty() {
            Ok(out)
        } else {
            Err(bad)
        }
    }

    /// The values explored.
    fn values(&self) -> Vec<Vec<usize>> {
        let n: Vec<usize> = self.fields.iter().map(|f| if f.ignored { 2 } else { TYS[f.ty].picks.len() }).collect();
        if self.fields.len() > 5 {
            let mut v: Vec<Vec<usize>> = (0..2).map(|k| vec![k; n.len()]).collect();
            for i in 0..n.len() {
                let mut w = vec![0; n.len()];
                w[i] = 1;
                v.push(w);
            }
            return v;
        }
        let mut v = vec![vec![]];
        for k in n {
            v = v.into_iter().flat_map(|w: Vec<usize>| (0..k).map(move |i| [&w[..], &[i]].concat())).collect();
        }
        v
    }

    /// The documents explored: for each key every way of being there, then members no field names, then other kinds.
    fn docs(&self, thorough: bool) -> Vec<String> {
        let mut keys: Vec<(String, usize)> = vec![];
        for f in &self.fields {
            if !f.ignored && !keys.iter().any(|k| k.0 == f.key) {
                keys.push((f.key.clone(), f.ty));
            }
        }
        let options = |k: &str, t: usize| -> Vec<Vec<String>> {
            let ty = &TYS[t];
            let g: Vec<&str> = ty.picks.iter().map(|x| x.1).collect();
            let q = js(k);
            let one = |v: &str| format!("{}:{}", q, v);
            let mut o = vec![vec![], vec![one(g[0])], vec![one(g[1])], vec![one("null")]];
            for b in ty.bad {
                o.push(vec![one(b)]);
                o.push(vec![one(b), one(g[0])]);
                o.push(vec![one(g[1]), one(b)]);
            }
            o.push(vec![one(g[0]), one(g[1])]);
            o
        };
        let mut out = vec![];
        let ign: Vec<&Field> = self.fields.iter().filter(|f| f.ignored).collect();
        if keys.len() > 5 {
            let base: Vec<String> = keys.iter().map(|k| options(&k.0, k.1)[1][0].clone()).collect();
            out.push(format!("{{{}}}", base.join(",")));
            for i in 0..keys.len() {
                for o in options(&keys[i].0, keys[i].1) {
                    let mut d: Vec<String> = base.clone();
                    d.splice(i..i + 1, o);
                    out.push(format!("{{{}}}", d.join(",")));
                }
            }
        } else {
            let mut v: Vec<Vec<String>> = vec![vec![]];
            for (k, t) in &keys {
                let o = options(k, *t);
                v = v.iter().flat_map(|w| o.iter().map(move |x| [&w[..], &x[..]].concat())).collect();
            }
            for (i, w) in v.into_iter().enumerate() {
                out.push(format!("{{{}}}", w.join(",")));
                // reversed, with strangers: unknown keys, ignored fields' names, names of renamed fields
                if i % 3 == 0 || thorough {
                    let mut x: Vec<String> = w.clone();
                    x.reverse();
                    x.insert(0, "\"stranger\":[{\"a\":1}]".into());
                    for f in &self.fields {
                        let n = f.name.strip_prefix("r#").unwrap_or(&f.name);
                        if !keys.iter().any(|k| k.0 == n) {
                            x.push(format!("{}:{}", js(n), TYS[f.ty].picks[0].1));
                        }
                        let r = format!("r#{}", n);
                        if !keys.iter().any(|k| k.0 == r) {
                            x.push(format!("{}:8", js(&r)));
                        }
                    }
                    for f in &ign {
                        x.push(format!("{}:true", js(&format!("{} ", f.name))));
                    }
                    x.push("\"\u{1}\":null".replace('\u{1}', "\\u0001"));
                    out.push(format!("{{{}}}", x.join(" , ")));
                }
            }
        }
        for d in ["null", "true", "3", "\"x\"", "[]", "[{}]"] {
            out.push(d.into());
        }
        if self.spec == "x:" {
            for n in (0..=70).chain([100, 127, 128, 129, 255, 256, 257, 1000]) {
                for k in ["a", "b", "c", "d", "e"] {
                    let t = &TYS[self.fields.iter().find(|f| f.key == k).unwrap().ty];
                    let (g, b) = (|i: usize| t.picks[i % t.picks.len()].1, t.bad.first().copied().unwrap_or("null"));
                    let rest: Vec<String> = self.fields.iter().filter(|f| f.key != k).map(|f| format!("{}:{}", js(&f.key), TYS[f.ty].picks[0].1)).collect();
                    // n times the key, the last like no other, or the last bad; n strangers before, after and between
                    let rep = |last: &str, i: usize| (0..n).map(|j| format!("{}:{}", js(k), if j + 1 == n { last } else { g(i) })).collect::<Vec<_>>();
                    for m in [rep(g(1), 0), rep(g(0), 1), rep(b, 0), (0..n).map(|j| format!("{}:{}", js(k), if j + 1 == n { g(1) } else { b })).collect()] {
                        out.push(format!("{{{}}}", [&rest[..], &m[..]].concat().join(",")));
                        out.push(format!("{{{}}}", m.iter().flat_map(|x| [x.clone(), format!("\"s{}\":[{{}}]", x.len())]).chain(rest.iter().cloned()).collect::<Vec<_>>().join(",")));
                    }
                    let s: Vec<String> = (0..n).map(|j| format!("\"{}{}\":{}", k, j, b)).collect();
                    let own = format!("{}:{}", js(k), g(1));
                    out.push(format!("{{{}}}", [&s[..], &rest[..], &[own.clone()]].concat().join(",")));
                    out.push(format!("{{{}}}", [&[own][..], &s[..], &rest[..]].concat().join(",")));
                    out.push(format!("{{{}}}", [&s[..], &rest[..]].concat().join(",")));
                }
            }
        }
        out
    }
}

// ---------------------------------------------------------------- building

struct Built {
    _kit: Kit,
    bin: std::path::PathBuf,
    index: HashMap<String, usize>,
}

fn build(specs: &[String], encode: bool, decode: bool) -> Result<Built, (usize, String)> {
    let pieces: Vec<String> = specs.iter().enumerate().map(|(i, s)| shape(s).source(i, encode, decode)).collect();
    let (_kit, bin) = build_pieces(&pieces, "")?;
    Ok(Built { _kit, bin, index: specs.iter().cloned().enumerate().map(|(i, s)| (s, i)).collect() })
}

/// Compiles the modules s0, s1, ... and the program that serves them.
fn build_pieces(pieces: &[String], extra: &str) -> Result<(Kit, std::path::PathBuf), (usize, String)> {
    let kit = Kit::new();
    let mut ext = vec![kit.art("json"), kit.art("json_derive")];
    // a derive of someone else with attributes of its own
    ext.push(kit.compile("other", "extern crate proc_macro;\n#[proc_macro_derive(Other, attributes(arg))] pub fn other(_: proc_macro::TokenStream) -> proc_macro::TokenStream { proc_macro::TokenStream::new() }", "proc-macro", &[]).unwrap_or_else(|e| panic!("other derive: {}", e)));
    let pre = kit.compile("pre", &(prelude() + extra), "rlib", &ext).unwrap_or_else(|e| panic!("prelude: {}", e));
    let mut ext2 = ext.clone();
    ext2.push(pre);
    let wrap = |c: &[(usize, &String)]| {
        let mut o = String::from("#![allow(warnings)]\npub mod sub {\n");
        for (_, p) in c {
            o.push_str(p);
        }
        o.push_str("}\n");
        o.push_str("pub fn rows() -> Vec<pre::Row> { vec![");
        for (i, _) in c {
            o.push_str(&format!("sub::s{}::ROW,", i));
        }
        o.push_str("] }\n");
        o
    };
    if std::env::var("ALL_BAD").is_ok() {
        let jobs: Vec<(String, String)> = pieces.iter().enumerate().map(|p| (format!("one{}", p.0), wrap(&[p]))).collect();
        for (i, r) in kit.compile_all(&jobs, "rlib", &ext2).into_iter().enumerate() {
            if let Err(m) = r {
                println!("BAD {} ==> {}", pieces[i], m);
            }
        }
    }
    let chunk = (pieces.len() / 24).clamp(1, 150);
    let crates = rc::compile_pieces(&kit, "ch", pieces, chunk, "rlib", &ext2, &wrap)?;
    let mut main = String::from("use std::io::{BufRead, Write};\nfn main() {\nlet mut rows: Vec<pre::Row> = vec![];\n");
    for (n, _) in &crates {
        main.push_str(&format!("rows.extend({}::rows());\n", n));
    }
    main.push_str(RUNNER);
    let mut ext3 = ext2.clone();
    ext3.extend(crates);
    let (_, bin) = kit.compile("runner", &main, "bin", &ext3).unwrap_or_else(|e| panic!("runner: {}", e));
    Ok((kit, bin))
}

const RUNNER: &str = r#"
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    fn unesc(s: &str) -> String {
        let mut o = String::new();
        let mut it = s.chars();
        while let Some(c) = it.next() {
            if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} } } else { o.push(c) }
        }
        o
    }
    for l in stdin.lock().lines() {
        let l = unesc(&l.unwrap());
        let mut it = l.splitn(3, ' ');
        let op = it.next().unwrap();
        let row = rows[it.next().unwrap().parse::<usize>().unwrap()];
        let arg = it.next().unwrap_or("");
        let r = std::panic::catch_unwind(|| {
            let nums = || arg.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect::<Vec<usize>>();
            let show = |r: Result<Vec<String>, json::Error>| match r { Ok(v) => format!("ok\u{1}{}", v.join("\u{1}")), Err(e) => format!("err\u{1}{:?}", e.kind) };
            match op {
                "E" => (row.0.unwrap())(&nums()),
                "D" => show((row.1.unwrap())(arg)),
                _ => show((row.2.unwrap())(&nums())),
            }
        }).unwrap_or("panic".to_string());
        let r = r.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r");
        out.write_all(format!(">{}\n", r).as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
"#;

// ---------------------------------------------------------------- the checks

/// Declares every shape; the second family needs the program the first one built.
fn declarations(run: &mut Run, encode: bool, decode: bool) -> Option<(Vec<String>, Option<Built>)> {
    let all = specs(run.thorough);
    let replaying = run.mode == crate::engine::Mode::Replay;
    let mut bad: Option<(String, String)> = None;
    let mut built = None;
    let todo: Vec<String> = if replaying {
        let p = String::from_utf8_lossy(&run.replay_payload).into_owned();
        vec![p.split('|').next().unwrap().to_string()]
    } else {
        all.clone()
    };
    match build(&todo, encode, decode) {
        Ok(b) => built = Some(b),
        Err((i, m)) => bad = Some((todo[i].clone(), m)),
    }
    run.family(
        "declarations",
        "every struct of the bounded language compiles with the derive (rustc on a generated program)",
        all.len() as u64,
        |i, b| {
            b.extend_from_slice(all[i as usize].as_bytes());
            true
        },
        |p| shape(&String::from_utf8_lossy(p)).source(0, encode, decode),
        |p, t: &mut Tally| {
            t.calls += 1;
            if let Some((s, m)) = &bad {
                if s.as_bytes() == p {
                    return fail("a struct does not compile with the derive", shape(s).source(0, encode, decode), m.clone());
                }
                return Ok(());
            }
            t.validated += 1;
            Ok(())
        },
    );
    if bad.is_some() && !replaying {
        return None;
    }
    Some((todo, built))
}

fn split(p: &[u8]) -> (String, String) {
    let s = String::from_utf8_lossy(p).into_owned();
    let (a, b) = s.split_once('|').unwrap();
    (a.to_string(), b.to_string())
}

pub fn c17(run: &mut Run) {
    run.assumptions.push("programs are compiled with the installed rustc, unoptimised".into());
    let (todo, built) = match declarations(run, true, false) {
        Some(x) => x,
        None => return,
    };
    let mut cases: Vec<(usize, Vec<usize>)> = vec![];
    let shapes: Vec<Shape> = todo.iter().map(|s| shape(s)).collect();
    for (i, s) in shapes.iter().enumerate() {
        for v in s.values() {
            cases.push((i, v));
        }
    }
    let b = match built {
        Some(b) => b,
        None => return,
    };
    let pool = Pool::new(|| Command::new(&b.bin));
    run.family(
        "encode",
        "every struct of the bounded language, every combination of sample values of its fields: the document compared with the field table",
        cases.len() as u64,
        |i, o| {
            let (s, v) = &cases[i as usize];
            let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            o.extend_from_slice(format!("{}|{}", shapes[*s].spec, v.join(",")).as_bytes());
            true
        },
        |p| {
            let (s, v) = split(p);
            format!("values {} of {}", v, shape(&s).source(0, true, false))
        },
        |p, t| {
            let (s, v) = split(p);
            let sh = shape(&s);
            let w: Vec<usize> = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let got = pool.ask(&format!("E {} {}", b.index[&s], v))?;
            t.calls += 1;
            let want = sh.encoded(&w).canon();
            match rv::parse(&got) {
                Some(g) if g.canon() == want => {
                    t.validated += 1;
                    Ok(())
                }
                _ => fail(format!("wrong encoding of {}", sh.source(0, true, false)), want, got),
            }
        },
    );
}

fn compare(sh: &Shape, want: Result<Vec<String>, HashSet<&'static str>>, got: &str, t: &mut Tally, on: &str) -> Result<(), Fail> {
    let ok = match &want {
        Ok(v) => {
            t.out("decoded");
            let mut w = vec!["ok".to_string()];
            w.extend(v.iter().cloned());
            let g: Vec<&str> = got.split('\u{1}').filter(|_| true).collect();
            if v.is_empty() {
                got == "ok\u{1}"
            } else {
                g == w
            }
        }
        Err(ks) => {
            t.out("refused");
            got.strip_prefix("err\u{1}").map_or(false, |k| ks.contains(k))
        }
    };
    if ok {
        t.validated += 1;
        Ok(())
    } else {
        fail(format!("wrong result of decoding {} as {}", on, sh.source(0, true, true)), format!("{:?}", want), got)
    }
}

pub fn c18(run: &mut Run) {
    run.assumptions.push("programs are compiled with the installed rustc, unoptimised; where several fields fail, the error of any of them is accepted".into());
    let thorough = run.thorough;
    let (todo, built) = match declarations(run, true, true) {
        Some(x) => x,
        None => return,
    };
    let shapes: Vec<Shape> = todo.iter().map(|s| shape(s)).collect();
    let mut docs: Vec<(usize, String)> = vec![];
    let mut vals: Vec<(usize, Vec<usize>)> = vec![];
    for (i, s) in shapes.iter().enumerate() {
        docs.extend(s.docs(thorough).into_iter().map(|d| (i, d)));
        vals.extend(s.values().into_iter().map(|v| (i, v)));
    }
    let b = match built {
        Some(b) => b,
        None => return,
    };
    let pool = Pool::new(|| Command::new(&b.bin));
    run.family(
        "decode",
        "every struct of the bounded language, every document in which each key is missing, good, of the wrong kind, null or repeated, with and without members of other names, and documents that are no objects",
        docs.len() as u64,
        |i, o| {
            let (s, d) = &docs[i as usize];
            o.extend_from_slice(format!("{}|{}", shapes[*s].spec, d).as_bytes());
            true
        },
        |p| {
            let (s, d) = split(p);
            format!("{} as {}", d, shape(&s).source(0, true, true))
        },
        |p, t| {
            let (s, d) = split(p);
            let sh = shape(&s);
            let got = pool.ask(&format!("D {} {}", b.index[&s], d))?;
            t.calls += 1;
            let doc = rv::parse(&d).unwrap_or_else(|| panic!("generated document is not JSON: {}", d));
            compare(&sh, sh.decoded(&doc), &got, t, &d)
        },
    );
    run.family(
        "round trip",
        "every struct of the bounded language and every combination of sample values: encoded, then decoded",
        vals.len() as u64,
        |i, o| {
            let (s, v) = &vals[i as usize];
            let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            o.extend_from_slice(format!("{}|{}", shapes[*s].spec, v.join(",")).as_bytes());
            true
        },
        |p| {
            let (s, v) = split(p);
            format!("values {} of {}", v, shape(&s).source(0, true, true))
        },
        |p, t| {
            let (s, v) = split(p);
            let sh = shape(&s);
            let w: Vec<usize> = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let got = pool.ask(&format!("T {} {}", b.index[&s], v))?;
            t.calls += 2;
            compare(&sh, sh.decoded(&sh.encoded(&w)), &got, t, "the encoding of its own value")
        },
    );
}

// ---------------------------------------------------------------- C19: declarations

const A19: &[&str] = &[
    "",
    "/// text",
    "/// one\n/// two: \"quoted\" #[ignore]\n///\n/// three",
    "/** block\n * comment */",
    "#[allow(dead_code)]",
    "#[allow(dead_code, clippy::all)]",
    "#[allow(unused,)]",
    "#[rustfmt::skip]",
    "#[doc = \"x\"] #[must_use]",
    "#[must_use = \"really\"]",
    "#[repr(C)]",
    "#[repr(C, align(16))]",
    "#[key = \"q\"]",
    "#[ignore]",
    "#[doc(alias = \"n\", hidden)]",
    "#[doc(alias(\"a\", \"b\"))]",
    "#[cfg_attr(all(), allow(dead_code), doc = \"c\")]",
    "#[cfg(not(any()))]",
    "#[deprecated(since = \"1.0\", note = \"x\")]",
    "#[non_exhaustive]",
    "#[doc = r#\"raw \"q\"\"#]",
    "#[doc = \"a\\\"b\\n#[key = \\\"z\\\"]\"]",
    "#[derive()]",
    "#[allow(clippy::all)] #[allow(rustdoc::all)]",
    "#[arg] #[arg(x, y)] #[arg = \"s\"] #[arg(x = 1, y = -2.5, z(w = true))]",
    "#[arg(short = 'v')]",
    "#[arg = '\\'']",
    "#[arg(min = 0x1F, max = 1_000, bits = 0b1u8, o = 0o17_7)]",
    "#[arg('c', -0b1, 5000000000u64, -9_000_000_000i64, 1_0.5_0f32, 340282366920938463463374607431768211455, 1e1_0)]",
    "#[arg(c\"x\", b'\\'', r###\"q\"##q\"###, br#\"x\"#, cr#\"y\"#)]",
    "#[arg(z = -0xFFFF_FFFF, -2147483648)]",
];
const V19: &[&str] = &["pub ", "", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in crate::sub) ", "pub (crate) "];
/// (parameters, where clause, fields with a type using them and their document, arguments)
const G19: &[(&str, &str, &[(&str, &str)], &str)] = &[
    ("", "", &[], ""),
    ("<T: json::ToJson + json::FromJson>", "", &[("T", "5")], "<u8>"),
    ("<T: ToJson + FromJson>", "", &[("T", "5"), ("Vec<T>", "[1,2]")], "<u8>"),
    ("<T>", "where T: ToJson + FromJson", &[("T", "\"x\"")], "<String>"),
    ("<T,>", "where T: ToJson + FromJson,", &[("Option<T>", "5")], "<u8>"),
    ("<T: ToJson>", "where T: FromJson", &[("T", "5")], "<u8>"),
    ("<T: ToJson + FromJson = u8>", "", &[("T", "5")], ""),
    ("<T: ToJson + FromJson = Vec<Option<u8>>>", "", &[("T", "[5]")], "<Vec<Option<u8>>>"),
    ("<T = u8>", "where T: ToJson + FromJson", &[("T", "5")], "<u8>"),
    ("<T: ::json::ToJson + ::json::FromJson>", "", &[("T", "5")], "<u8>"),
    ("<T>", "where T: ::json::ToJson + ::json::FromJson", &[("T", "5")], "<u8>"),
    ("<A: ToJson + FromJson, B: ToJson + FromJson>", "", &[("A", "5"), ("B", "true"), ("Vec<(String, Vec<B>)>", "{\"z\":[false]}")], "<u8, bool>"),
    ("<A, B>", "where A: ToJson + FromJson, B: ToJson + FromJson", &[("A", "5"), ("B", "true")], "<u8, bool>"),
    ("<A, B,>", "where A: ToJson, A: FromJson, B: ToJson + FromJson,", &[("A", "5"), ("B", "true")], "<u8, bool>"),
    ("<'a>", "", &[("!PhantomData<&'a ()>", "")], "<'static>"),
    ("<'a, 'b: 'a>", "", &[("!PhantomData<(&'a u8, &'b u8)>", "")], "<'static, 'static>"),
    ("<'a, 'b>", "where 'b: 'a", &[("!PhantomData<(&'a u8, &'b u8)>", "")], "<'static, 'static>"),
    ("<'a, T: ToJson + FromJson + 'a>", "", &[("T", "5"), ("!PhantomData<&'a T>", "")], "<'static, u8>"),
    ("<'a, T: 'a + ToJson + FromJson>", "", &[("T", "5"), ("!PhantomData<&'a T>", "")], "<'static, u8>"),
    ("<'a, T>", "where T: 'a + ToJson + FromJson", &[("T", "5"), ("!PhantomData<&'a mut T>", "")], "<'static, u8>"),
    ("<T: 'static + ToJson + FromJson>", "", &[("T", "5")], "<u8>"),
    ("<const N: usize>", "", &[("!PhantomData<[u8; N]>", "")], "<3>"),
    ("<const N: usize, const B: bool>", "", &[("!PhantomData<[u8; N]>", "")], "<3, true>"),
    ("<T: ToJson + FromJson, const N: usize>", "", &[("T", "5"), ("!PhantomData<[T; N]>", "")], "<u8, 3>"),
    ("<'a, const N: usize, T: ToJson + FromJson>", "", &[("T", "5"), ("!PhantomData<&'a [T; N]>", "")], "<'static, 3, u8>"),
    ("<'a, T: ToJson + FromJson, const N: usize = 3>", "", &[("T", "5"), ("!PhantomData<&'a [T; N]>", "")], "<'static, u8>"),
    ("<'a, T: ToJson + FromJson = u8, const N: usize = 3, const M: char = 'x'>", "", &[("T", "5"), ("!PhantomData<&'a [T; N]>", "")], "<'static>"),
    ("<const constN: usize, const N: usize = 2, T: ToJson + FromJson = u8>", "", &[("T", "5"), ("!PhantomData<[[T; N]; constN]>", "")], "<3>"),
    ("<constT: ToJson + FromJson, whereT: ToJson + FromJson>", "", &[("constT", "5"), ("whereT", "true")], "<u8, bool>"),
    ("<T: ToJson + FromJson + Clone + std::fmt::Debug>", "", &[("T", "5")], "<u8>"),
    ("<T: Into<String> + ToJson + FromJson>", "", &[("T", "\"x\"")], "<String>"),
    ("<T: Iterator<Item = u8>>", "", &[("!PhantomData<T>", "")], "<std::vec::IntoIter<u8>>"),
    ("<T: Iterator<Item = Vec<Vec<u8>>> + Clone>", "", &[("!PhantomData<T>", "")], "<std::vec::IntoIter<Vec<Vec<u8>>>>"),
    ("<T>", "where T: Iterator<Item = u8>", &[("!PhantomData<T>", "")], "<std::vec::IntoIter<u8>>"),
    ("<F: Fn(u8) -> u8>", "", &[("!PhantomData<F>", "")], "<fn(u8) -> u8>"),
    ("<F>", "where F: Fn(u8, (u8, u8)) -> Vec<u8> + 'static", &[("!PhantomData<F>", "")], "<fn(u8, (u8, u8)) -> Vec<u8>>"),
    ("<F: FnMut() + Send>", "", &[("!PhantomData<F>", "")], "<fn()>"),
    ("<T: ?Sized>", "", &[("!PhantomData<T>", "")], "<str>"),
    ("<T: ToJson + ?Sized>", "", &[("!PhantomData<T>", "")], "<str>"),
    ("<T>", "where T: ?Sized", &[("!PhantomData<T>", "")], "<str>"),
    ("<K: ToString + std::str::FromStr + std::hash::Hash + Eq, V: ToJson + FromJson>", "", &[("HashMap<K, V>", "{\"5\":true}")], "<u8, bool>"),
    ("<T: Tr>", "", &[("T::Out", "5")], "<u8>"),
    ("<T: Tr>", "", &[("<T as Tr>::Out", "5"), ("Vec<<T as pre::Tr>::Out>", "[5]")], "<u8>"),
    ("<T: Tr<Out = u8>>", "", &[("!PhantomData<T>", "")], "<u8>"),
    ("<r#type: ToJson + FromJson>", "", &[("r#type", "5")], "<u8>"),
    ("<\u{c9}: ToJson + FromJson>", "", &[("\u{c9}", "5")], "<u8>"),
    ("<A: ToJson + FromJson, B: ToJson + FromJson, C: ToJson + FromJson, D: ToJson + FromJson, E: ToJson + FromJson>", "", &[("A", "5"), ("B", "true"), ("C", "1"), ("D", "2"), ("E", "3")], "<u8, bool, u8, u8, u8>"),
    ("<T: ToJson + FromJson, U: ToJson + FromJson = T>", "", &[("T", "5"), ("U", "6")], "<u8, u8>"),
];
/// (attributes, key, ignored); '@' is the field's number
const F19: &[(&str, &str, bool)] = &[
    ("", "", false),
    ("#[key = \"k@\"]", "k@", false),
    ("#[ignore]", "", true),
    ("#[key = \"k@\"] #[ignore]", "", true),
    ("#[ignore]\n#[key = \"k@\"]\n", "", true),
    ("/// text\n", "", false),
    ("/// text\n/// \n#[key = \"k @\"]\n/// text\n", "k @", false),
    ("/** block */", "", false),
    ("#[allow(dead_code)]", "", false),
    ("#[allow(clippy::all, unused,)] #[key = \"k@\"]", "k@", false),
    ("#[doc(hidden)] #[ignore] #[doc(alias = \"z@\")]", "", true),
    ("#[cfg(all())]", "", false),
    ("#[cfg_attr(all(), key = \"k@\")]", "k@", false),
    ("#[cfg_attr(any(), ignore)]", "", false),
    ("#[cfg(any())] gone@: u8, ", "", false),
    ("#[rustfmt::skip]", "", false),
    ("#[deprecated]", "", false),
    ("#[deprecated(note = \"n\")] #[key = r\"k@\"]", "k@", false),
    ("#[doc = \"#[ignore]\"]", "", false),
    ("#[arg(short = 'v', max = 0xFF)] #[key = \"k@\"]", "k@", false),
    ("#[arg = 'k'] #[arg('\"', 1_000, -0b1)]", "", false),
    ("#[ignore] #[arg = c\"x\"] #[arg(5000000000u64)]", "", true),
];
/// (type, document); no document: never converted, so ignored
const T19: &[(&str, &str)] = &[
    ("u8", "7"),
    ("String", "\"s\""),
    ("std::string::String", "\"s\""),
    ("::std::string::String", "\"s\""),
    ("Vec<u8>", "[1,2]"),
    ("Vec<Vec<u8>>", "[[1],[]]"),
    ("Vec<Vec<Vec<u8>>>", "[[[1]]]"),
    ("Option<Option<u8>>", "null"),
    ("HashMap<String, Vec<(String, u8)>>", "{\"a\":{\"b\":1}}"),
    ("std::collections::HashMap<String, Option<Vec<bool>>>", "{\"a\":[true]}"),
    ("::std::collections::HashMap<::std::string::String, ::std::option::Option<u8>>", "{\"a\":1}"),
    ("Vec<(String, Vec<(u8, bool)>)>", "{\"a\":{\"1\":true}}"),
    ("Vec<(String, u8,)>", "{\"a\":1}"),
    ("json::Json", "[null]"),
    ("Inner", "{\"p\":1}"),
    ("pre::Inner", "{\"p\":1}"),
    ("Gen<'static, u8, 3>", "4"),
    ("Gen<'static, Vec<Option<u8>>, 3>", "[null]"),
    ("pre::Gen<'static, u8, 3>", "4"),
    ("<u8 as Tr>::Out", "7"),
    ("<u8 as pre::Tr>::Out", "7"),
    ("Vec<<u8 as Tr>::Out>", "[7]"),
    ("HashMap<String, u8,>", "{\"a\":1}"),
    ("Option<Vec<Kid>>", "[{\"p\":1}]"),
    ("r#priv", "7"),
    ("[u8; 4]", ""),
    ("(u8, String)", ""),
    ("(u8,)", ""),
    ("()", ""),
    ("((u8,), [u8; 2], Vec<(u8, u8)>)", ""),
    ("Option<fn(u8) -> u8>", ""),
    ("Option<fn()>", ""),
    ("Option<Box<dyn Fn(u8) -> u8>>", ""),
    ("Option<Box<dyn Fn(u8) -> Vec<u8> + Send + 'static>>", ""),
    ("Option<Box<dyn std::any::Any + Send>>", ""),
    ("std::marker::PhantomData<&'static str>", ""),
    ("PhantomData<fn(&str) -> [u8; 3]>", ""),
    ("&'static str", ""),
    ("&'static [u8]", ""),
    ("Option<&'static mut u8>", ""),
    ("Option<&'static (u8, u8)>", ""),
    ("[(u8, bool); 2]", ""),
    ("[Option<[u8; 2]>; 2]", ""),
    ("[u8; 2 + 2]", ""),
    ("Option<std::rc::Rc<[u8]>>", ""),
    ("Option<Box<dyn FnMut(&str, (u8, u8)) -> Result<(), String>>>", ""),
    ("Option<Box<dyn Iterator<Item = (u8, Vec<u8>)>>>", ""),
];
/// types that encode only: (type, expression, document)
const E19: &[(&str, &str, &str)] = &[
    ("&'a str", "\"s\"", "\"s\""),
    ("&'static str", "\"s\"", "\"s\""),
    ("&'a [u8]", "&[1u8, 2]", "[1,2]"),
    ("&'a u8", "&3u8", "3"),
    ("&'a bool", "&true", "true"),
    ("&'static [(String, u8)]", "&[]", "{}"),
    ("Vec<&'a str>", "vec![\"s\"]", "[\"s\"]"),
    ("Option<&'a str>", "None", "null"),
    ("&'a [Option<&'a str>]", "&[None]", "[null]"),
    ("Vec<(&'a str, &'a u8)>", "vec![(\"a\", &1)]", "{\"a\":1}"),
    ("HashMap<&'static str, u8>", "HashMap::new()", "{}"),
    ("&'a [&'a [u8]]", "&[&[1u8]]", "[[1]]"),
];

const EXTRA_PRELUDE: &str = r#"
pub use std::marker::PhantomData;
pub use json::{ToJson, FromJson};
pub use other::Other;
pub trait Tr { type Out: ToJson + FromJson; }
impl Tr for u8 { type Out = u8; }
#[allow(non_camel_case_types)] pub type r#priv = u8;
pub struct Gen<'a, T, const N: usize>(pub T, PhantomData<&'a [u8; N]>);
impl<'a, T: Default, const N: usize> Default for Gen<'a, T, N> { fn default() -> Self { Gen(T::default(), PhantomData) } }
impl<'a, T, const N: usize> std::fmt::Debug for Gen<'a, T, N> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Gen") } }
impl<'a, T: ToJson, const N: usize> ToJson for Gen<'a, T, N> { fn to_json(&self) -> Json { self.0.to_json() } }
impl<'a, T: FromJson, const N: usize> FromJson for Gen<'a, T, N> { fn from_json(j: &Json) -> Result<Self, json::Error> { Ok(Gen(T::from_json(j)?, PhantomData)) } }
pub type Kid = Inner;
"#;

/// What else is in scope where the struct is declared.
const M19: &[&str] = &[
    "",
    "pub type Result<T> = std::result::Result<T, json::Error>;",
    "pub type Result = std::result::Result<(), ()>;",
    "use std::io::Result;",
    "use std::fmt::*;",
    "use std::io::*;",
    "use json::*;",
    "pub struct Result(pub u8);",
    "pub struct Error; pub struct Json; pub struct ErrorKind;",
    "pub trait ToJson {} pub trait FromJson {} impl<T> ToJson for T {} impl<T> FromJson for T {}",
    "pub enum Out { Ok(u8), Err(u8) } pub use self::Out::*;",
    "pub enum Answer { Ok, Err } pub use self::Answer::{Ok, Err};",
    "pub struct Default; pub struct HashMap;",
    "pub enum Maybe { Some, None } pub use self::Maybe::Some;",
    "pub enum Maybe { Some(u8, u8), None } pub use self::Maybe::*;",
    "pub struct Option<T>(pub T);",
    "pub struct Vec; pub struct String; pub struct Box;",
    "pub fn from_json() {} pub fn to_json() {} pub fn drop() {}",
    "use std::result::Result as Outcome; pub type Error = (); pub type Result<T> = Outcome<T, Error>;",
    "extern crate json as other_name;",
    "pub mod result {} pub mod option {} pub mod default {} pub mod collections {}",
];

/// A choice for every component.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
struct D19 {
    /// surroundings
    m: usize,
    a: usize,
    v: usize,
    g: usize,
    fv: usize,
    f1: usize,
    f2: usize,
    t1: usize,
    t2: usize,
    /// number of fields 0..2 (reversed: 0 is two), comma or none, order of generic fields
    c: usize,
}
const C19: usize = 8;

fn decl19(d: &D19) -> (String, String) {
    let (params, wh, gf, args) = G19[d.g];
    let mut fields: Vec<(String, String, String, String)> = vec![]; // attrs, name, type, doc
    let mut want = vec![];
    let mut doc = vec![];
    let mut put = |n: usize, f: usize, t: (&str, &str), fields: &mut Vec<(String, String, String, String)>| {
        let (attrs, key, mut ignored) = F19[f];
        let at = n.to_string();
        let mut attrs = attrs.replace('@', &at);
        let mut ty = t.0;
        let mut val = t.1;
        if ty.starts_with('!') || val.is_empty() {
            ty = ty.trim_start_matches('!');
            if !ignored {
                // after the others, where a cut-off member is not in the way
                attrs = if attrs.contains("gone") { format!("{} #[ignore]", attrs) } else { format!("#[ignore] {}", attrs) };
                ignored = true;
            }
        }
        if ignored && ty == "json::Json" {
            ty = "u8";
            val = "7";
        }
        let name = ["a", "r#type", "c"][n % 3].to_string() + &if n > 2 { at.clone() } else { String::new() };
        let key = if key.is_empty() { name.trim_start_matches("r#").to_string() } else { key.replace('@', &at) };
        if !ignored {
            want.push(format!("{}:{}", js(&key), val));
            doc.push(format!("{}:{}", js(&key), val));
        } else {
            doc.push(format!("{}:[\"not used\"]", js(&key)));
        }
        fields.push((attrs, name, ty.to_string(), String::new()));
    };
    let generic_first = d.c & 4 == 0;
    if generic_first {
        for (i, t) in gf.iter().enumerate() {
            put(i + 2, 0, *t, &mut fields);
        }
    }
    if d.c & 3 < 3 {
        put(0, d.f1, T19[d.t1], &mut fields);
    }
    if d.c & 3 < 2 {
        put(1, d.f2, T19[d.t2], &mut fields);
    }
    if !generic_first {
        for (i, t) in gf.iter().enumerate() {
            put(i + 2, 0, *t, &mut fields);
        }
    }
    let mut o = format!("pub mod s@@ {{\nuse pre::*;\n{}use json::{{JsonEncode, JsonDecode}};\n#[derive(JsonEncode, JsonDecode{})]\n{}\n{}struct S{} {} {{\n", if d.m == 0 { String::new() } else { format!("{}\n", M19[d.m]) }, if [A19[d.a], F19[d.f1].0, F19[d.f2].0].iter().any(|x| x.contains("#[arg")) { ", Other" } else { "" }, A19[d.a], V19[d.v], params, wh);
    let n = fields.len();
    for (i, (a, name, ty, _)) in fields.iter().enumerate() {
        let comma = if i + 1 == n && d.c & 1 == 1 { "" } else { "," };
        let vis = V19[(d.fv + i) % V19.len()];
        let (a, vis) = (a.as_str(), vis);
        o.push_str(&format!("    {} {}{}: {}{}\n", a, vis, name, ty, comma));
    }
    o.push_str("}\n");
    o.push_str(&format!(
        "fn smoke(_: &[usize]) -> std::result::Result<std::vec::Vec<std::string::String>, json::Error> {{ let x: S{} = json::decode({:?})?; std::result::Result::Ok(vec![json::encode(&x)]) }}\npub const ROW: Row = (std::option::Option::None, std::option::Option::None, std::option::Option::Some(smoke as _));\n}}\n",
        args,
        format!("{{{}}}", doc.join(","))
    ));
    (o, format!("{{{}}}", want.join(",")))
}

fn decl_e19(a: usize, f: usize, e: usize, v: usize) -> (String, String) {
    let (attrs, key, ignored) = F19[f];
    let (ty, ex, val) = E19[e];
    let key = if key.is_empty() { "r".to_string() } else { key.replace('@', "0") };
    let g = if ty.contains("'a") { "<'a>" } else { "" };
    let src = format!(
        "pub mod s@@ {{\nuse pre::*;\nuse json::JsonEncode;\n{}\n#[derive(JsonEncode, Other)]\n{}struct S{} {{\n{} {}r: {},\n    z: u8\n}}\nfn smoke(_: &[usize]) -> Result<Vec<String>, json::Error> {{ Ok(vec![json::encode(&S {{ r: {}, z: 1 }})]) }}\npub const ROW: Row = (None, None, Some(smoke as _));\n}}\n",
        A19[a].replace("#[key = \"q\"]", "").replace("#[ignore]", ""), V19[v], g, attrs.replace('@', "0"), V19[v], ty, ex
    );
    (src, if ignored { "{\"z\":1}".into() } else { format!("{{{}:{},\"z\":1}}", js(&key), val) })
}

fn shapes19(thorough: bool) -> Vec<(String, String)> {
    let mut set: Vec<D19> = vec![];
    let sizes = [A19.len(), V19.len(), G19.len(), V19.len(), F19.len(), F19.len(), T19.len(), T19.len(), C19];
    let at = |c: &[(usize, usize)]| {
        let mut d = D19::default();
        for (k, v) in c {
            let v = *v;
            match k {
                0 => d.a = v,
                1 => d.v = v,
                2 => d.g = v,
                3 => d.fv = v,
                4 => d.f1 = v,
                5 => d.f2 = v,
                6 => d.t1 = v,
                7 => d.t2 = v,
                9 => d.m = v,
                _ => d.c = v,
            }
        }
        d
    };
    for i in 0..9 {
        for j in i + 1..9 {
            for x in 0..sizes[i] {
                for y in 0..sizes[j] {
                    set.push(at(&[(i, x), (j, y)]));
                }
            }
        }
    }
    // surroundings: with the parts of a struct that do not name what is defined there
    for m in 1..M19.len() {
        for f in 0..F19.len() {
            set.push(at(&[(9, m), (4, f)]));
        }
        for a in 0..A19.len() {
            set.push(at(&[(9, m), (0, a)]));
        }
        for c in 0..C19 {
            set.push(at(&[(9, m), (8, c)]));
        }
        for g in 0..G19.len() {
            let named = |w: &str| G19[g].0.contains(w) || G19[g].1.contains(w) || G19[g].3.contains(w) || G19[g].2.iter().any(|t| t.0.contains(w));
            if !["Option", "Result", "Vec", "String", "ToJson", "FromJson", "HashMap"].iter().any(|w| M19[m].contains(w) && named(w)) && !(M19[m].contains("use json::*") && named("PhantomData")) {
                set.push(at(&[(9, m), (2, g)]));
            }
        }
    }
    if thorough {
        for (i, j, k) in [(2, 4, 6), (0, 2, 4), (4, 6, 7), (2, 6, 8), (4, 5, 6), (2, 3, 4), (0, 4, 6)] {
            for x in 0..sizes[i] {
                for y in 0..sizes[j] {
                    for z in 0..sizes[k] {
                        set.push(at(&[(i, x), (j, y), (k, z)]));
                    }
                }
            }
        }
    }
    let mut seen = HashSet::new();
    let mut out = vec![];
    for d in set {
        let p = decl19(&d);
        if seen.insert(p.0.clone()) {
            out.push(p);
        }
    }
    for e in 0..E19.len() {
        for f in 0..F19.len() {
            out.push(decl_e19(f % A19.len(), f, e, (f + e) % V19.len()));
        }
        for a in 0..A19.len() {
            out.push(decl_e19(a, 0, e, a % V19.len()));
        }
    }
    out.retain(|p| seen.insert(format!("{}\u{1}", p.0)));
    out
}

pub fn c19(run: &mut Run) {
    run.assumptions.push("programs are compiled with the installed rustc; structs written by macro_rules with fragment variables are outside the property".into());
    let all = shapes19(run.thorough);
    let replaying = run.mode == crate::engine::Mode::Replay;
    let todo: Vec<(String, String)> = if replaying {
        let p = String::from_utf8_lossy(&run.replay_payload).into_owned();
        let (a, b) = p.split_once('\0').expect("payload");
        vec![(a.to_string(), b.to_string())]
    } else {
        all.clone()
    };
    let pieces: Vec<String> = todo.iter().enumerate().map(|(i, s)| s.0.replace("s@@", &format!("s{}", i))).collect();
    let (mut bad, mut built) = (None, None);
    match build_pieces(&pieces, EXTRA_PRELUDE) {
        Ok(b) => built = Some(b),
        Err((i, m)) => bad = Some((i, m)),
    }
    let index: HashMap<&str, usize> = todo.iter().enumerate().map(|(i, s)| (s.0.as_str(), i)).collect();
    let gen = |i: u64, b: &mut Vec<u8>| {
        b.extend_from_slice(format!("{}\0{}", all[i as usize].0, all[i as usize].1).as_bytes());
        true
    };
    let show = |p: &[u8]| String::from_utf8_lossy(p).replace('\0', "// encodes as ");
    let part = |p: &[u8]| {
        let s = String::from_utf8_lossy(p).into_owned();
        let (a, b) = s.split_once('\0').unwrap();
        (a.to_string(), b.to_string())
    };
    let failed = bad.is_some();
    run.family(
        "declarations",
        "every pair of choices among struct attributes, visibilities, generic parameters and where clauses, field attributes, field types and comma styles: the program compiles",
        all.len() as u64,
        gen,
        show,
        |p, t| {
            t.calls += 1;
            let (src, _) = part(p);
            if let Some((i, m)) = &bad {
                if index.get(src.as_str()) == Some(i) {
                    return fail("a struct does not compile with the derives", src, m.clone());
                }
                return Ok(());
            }
            t.validated += 1;
            Ok(())
        },
    );
    if failed && !replaying {
        return;
    }
    let built = match built {
        Some(b) => b,
        None => return,
    };
    let pool = Pool::new(|| Command::new(&built.1));
    run.family(
        "use",
        "each of these structs decodes a document with all its keys and encodes it again",
        all.len() as u64,
        gen,
        show,
        |p, t| {
            let (src, want) = part(p);
            let got = pool.ask(&format!("T {} ", index[src.as_str()]))?;
            t.calls += 2;
            let w = rv::parse(&want).expect("expected document").canon();
            match got.strip_prefix("ok\u{1}").and_then(rv::parse) {
                Some(g) if g.canon() == w => {
                    t.validated += 1;
                    Ok(())
                }
                _ => fail(format!("decoding and encoding again gives something else: {}", src), w, got),
            }
        },
    );
}
