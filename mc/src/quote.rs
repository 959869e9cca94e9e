//! C20, C21, C26: every small use of quote! in a bounded language, compiled into a
//! procedural macro against /repo's current json_quote and run inside rustc; the tokens
//! are compared with those the compiler makes of the expected text.
use crate::engine::{fail, js, Run, Tally};
use crate::rc::{self, Kit, Pool};
use std::collections::{HashMap, HashSet};
use std::process::Command;

/// One use of quote! and what it must give.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Case {
    /// a block of type TokenStream, over the variables of `ENV`
    pub code: String,
    /// which value each variable has
    pub vals: Vec<u8>,
    pub want: String,
}

// ---------------------------------------------------------------- variables

pub struct Var {
    pub name: &'static str,
    ty: &'static str,
    /// (value in the program, its elements as text); one element unless it is an option or a list
    pub vals: &'static [(&'static str, &'static [&'static str])],
}
pub static ENV: &[Var] = &[
    Var { name: "var", ty: "&'static str", vals: &[("\"x\"", &["x"]), ("\"\"", &[""]), ("\"y :: z\"", &["y :: z"]), ("\"( a , b )\"", &["( a , b )"]), ("\"r#fn\"", &["r#fn"]), ("\"'a\"", &["'a"]), ("\"+= 1\"", &["+= 1"]), ("\"\\\"s\\\"\"", &["\"s\""]), ("\"#\"", &["#"])] },
    Var { name: "num", ty: "i32", vals: &[("42", &["42"]), ("-7", &["- 7"]), ("0", &["0"])] },
    Var { name: "flag", ty: "bool", vals: &[("true", &["true"]), ("false", &["false"])] },
    Var { name: "opt", ty: "Option<&'static str>", vals: &[("None", &[]), ("Some(\"o\")", &["o"]), ("Some(\"p . q\")", &["p . q"])] },
    Var { name: "iter", ty: "&'static [&'static str]", vals: &[("&[]", &[]), ("&[\"i\"]", &["i"]), ("&[\"i\", \"j + k\"]", &["i", "j + k"]), ("&[\"i\", \"\", \"l\"]", &["i", "", "l"])] },
    Var { name: "more", ty: "&'static [i64]", vals: &[("&[5, 6]", &["5", "6"]), ("&[]", &[]), ("&[7]", &["7"])] },
    Var { name: "deep", ty: "Option<&'static [&'static str]>", vals: &[("None", &[]), ("Some(&[])", &[""]), ("Some(&[\"d\"])", &["d"]), ("Some(&[\"d\", \"e\"])", &["d\0e"])] },
];
fn var(name: &str) -> usize {
    ENV.iter().position(|v| v.name == name).unwrap()
}

// ---------------------------------------------------------------- directives

/// A piece of the argument of quote!.
#[derive(Clone)]
pub enum El {
    /// tokens as they are
    T(&'static str),
    /// a group: opening, closing
    G(&'static str, &'static str, Vec<El>),
    /// #name, a variable or a bound name
    V(&'static str),
    /// #(expression), and its text in terms of the values
    E(&'static str, fn(&Scope) -> String),
    /// bool form: source of the condition, sign
    F(&'static str, fn(&Scope) -> bool, char, Vec<El>),
    /// option or list: source, variable, bound name and body, inner separator, outer separator, mark
    L(&'static str, &'static str, Option<(&'static str, Vec<El>)>, &'static str, &'static str, char),
}
use El::*;

#[derive(Clone)]
pub struct Scope {
    vals: Vec<u8>,
    bound: Vec<(&'static str, String)>,
}
impl Scope {
    fn elems(&self, name: &str) -> Vec<String> {
        if let Some(b) = self.bound.iter().rev().find(|b| b.0 == name) {
            // a bound list is its elements
            return b.1.split('\0').filter(|x| !x.is_empty()).map(String::from).collect();
        }
        let v = var(name);
        ENV[v].vals[self.vals[v] as usize].1.iter().map(|x| x.to_string()).collect()
    }
    fn text(&self, name: &str) -> String {
        if let Some(b) = self.bound.iter().rev().find(|b| b.0 == name) {
            return b.1.clone();
        }
        self.elems(name).concat()
    }
    fn int(&self, name: &str) -> i64 {
        self.text(name).replace(' ', "").parse().unwrap()
    }
}

fn source(e: &[El], o: &mut String, used: &mut Vec<&'static str>) {
    for x in e {
        o.push(' ');
        match x {
            T(s) => o.push_str(s),
            G(a, b, v) => {
                o.push_str(a);
                source(v, o, used);
                o.push(' ');
                o.push_str(b);
            }
            V(n) => {
                o.push('#');
                o.push_str(n);
                used.push(n);
            }
            E(s, _) => {
                o.push_str(&format!("#({})", s));
                mentions(s, used);
            }
            F(s, _, sign, b) => {
                o.push_str(&format!("#(#{}:", s));
                mentions(s, used);
                source(b, o, used);
                o.push_str(&format!("){}", sign));
            }
            L(s, v, body, inner, sep, mark) => {
                o.push_str(&format!("#(#{}", s));
                used.push(v);
                if let Some((n, b)) = body {
                    o.push_str(&format!(":{}", n));
                    source(b, o, used);
                }
                let sp = |x: &str| if x.is_empty() || (",;|".contains(x) && o.len() % 2 == 0) { "" } else { " " };
                let (a, b) = (sp(inner), sp(sep));
                o.push_str(&format!("{}{}){}{}{}{}", a, inner, b, sep, b, mark));
            }
        }
    }
}
fn mentions(s: &str, used: &mut Vec<&'static str>) {
    for w in s.split(|c: char| !c.is_alphanumeric() && c != '_') {
        if let Some(v) = ENV.iter().find(|v| v.name == w) {
            used.push(v.name);
        }
    }
}

fn expand(e: &[El], sc: &mut Scope, o: &mut String) {
    for x in e {
        match x {
            T(s) => {
                o.push(' ');
                o.push_str(if *s == "##" { "#" } else { s });
            }
            G(a, b, v) => {
                o.push_str(&format!(" {} ", a));
                expand(v, sc, o);
                o.push_str(&format!(" {}", b));
            }
            V(n) => o.push_str(&format!(" {}", sc.text(n))),
            E(_, f) => o.push_str(&format!(" {}", f(sc))),
            F(_, f, sign, b) => {
                if f(sc) == (*sign == '+') {
                    expand(b, sc, o);
                }
            }
            L(_, v, body, inner, sep, _) => {
                let es: Vec<String> = if *v == "deep" {
                    sc.elems(v)
                } else {
                    sc.elems(v)
                };
                for (i, e) in es.iter().enumerate() {
                    if i > 0 {
                        o.push_str(&format!(" {}", sep));
                    }
                    match body {
                        None => o.push_str(&format!(" {}", e)),
                        Some((n, b)) => {
                            sc.bound.push((n, e.clone()));
                            expand(b, sc, o);
                            sc.bound.pop();
                        }
                    }
                    o.push_str(&format!(" {}", inner));
                }
            }
        }
    }
}

/// All the cases of one piece of source: every combination of values of the variables it uses.
fn cases(e: &[El], out: &mut Vec<Case>) {
    let (mut src, mut used) = (String::new(), vec![]);
    source(e, &mut src, &mut used);
    let mut combos: Vec<Vec<u8>> = vec![vec![0; ENV.len()]];
    for (k, v) in ENV.iter().enumerate() {
        if used.contains(&v.name) {
            combos = combos
                .into_iter()
                .flat_map(|c| {
                    (0..v.vals.len()).map(move |i| {
                        let mut c = c.clone();
                        c[k] = i as u8;
                        c
                    })
                })
                .collect();
        }
    }
    for vals in combos {
        let mut o = String::new();
        expand(e, &mut Scope { vals: vals.clone(), bound: vec![] }, &mut o);
        out.push(Case { code: format!("quote!({})", src), vals, want: o });
    }
}

// ---------------------------------------------------------------- programs

fn env_source(vals: bool) -> String {
    let mut o = String::new();
    for (i, v) in ENV.iter().enumerate() {
        if vals {
            o.push_str(&format!("pub const V{}: &[{}] = &[{}];\n", i, v.ty, v.vals.iter().map(|x| x.0).collect::<Vec<_>>().join(", ")));
        } else {
            o.push_str(&format!("let {} = env::V{}[w[{}] as usize]; ", v.name, i, i));
        }
    }
    o
}

/// What every serving macro needs: the wire format and the token normaliser.
pub const PRELUDE: &str = r##"
extern crate proc_macro;
use proc_macro::*;
use std::io::{BufRead, Write};
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} } } else { o.push(c) }
    }
    o
}
/// The tokens, operators put together the way the compiler's lexer does.
fn flat(s: TokenStream, o: &mut Vec<String>) {
    let v: Vec<TokenTree> = s.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("<none", "none>") };
                o.push(a.into());
                flat(g.stream(), o);
                o.push(b.into());
                i += 1;
            }
            TokenTree::Ident(x) => { o.push(format!("i {}", x)); i += 1; }
            TokenTree::Literal(x) => { o.push(format!("l {}", x)); i += 1; }
            TokenTree::Punct(p) if p.as_char() == '\'' => {
                if let (Spacing::Joint, Some(TokenTree::Ident(x))) = (p.spacing(), v.get(i + 1)) { o.push(format!("'{}", x)); i += 2; } else { o.push("p '".into()); i += 1; }
            }
            TokenTree::Punct(_) => {
                // a run of joint punctuation
                let mut run = String::new();
                loop {
                    match v.get(i) {
                        Some(TokenTree::Punct(p)) if p.as_char() != '\'' => {
                            run.push(p.as_char());
                            i += 1;
                            if p.spacing() == Spacing::Alone { break; }
                        }
                        _ => break,
                    }
                }
                let mut r = &run[..];
                while !r.is_empty() {
                    let n = [3, 2, 1].into_iter().find(|n| r.len() >= *n && (*n == 1 || ["<<=", ">>=", "...", "..=", "->", "<-", "=>", "<=", ">=", "!=", "&&", "||", "==", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", ">>", "<<", "..", "::"].contains(&&r[..*n]))).unwrap();
                    o.push(format!("p {}", &r[..n]));
                    r = &r[n..];
                }
            }
        }
    }
}
"##;

const PM: &str = r##"
fn spans(s: TokenStream, want: &str) -> bool {
    s.into_iter().all(|t| format!("{:?}", t.span()) == want && match t { TokenTree::Group(g) => spans(g.stream(), want), _ => true })
}
#[proc_macro]
pub fn serve(_: TokenStream) -> TokenStream {
    std::panic::set_hook(Box::new(|_| ()));
    let mut rows: Vec<fn(&[u8]) -> TokenStream> = vec![];
    ROWS
    let mut out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = unesc(&l.unwrap());
        let mut it = l.splitn(3, ' ');
        let f = rows[it.next().unwrap().parse::<usize>().unwrap()];
        let w: Vec<u8> = it.next().unwrap().split(',').map(|x| x.parse().unwrap()).collect();
        let want = it.next().unwrap();
        let r = std::panic::catch_unwind(|| {
            if want == "PANIC" {
                return match std::panic::catch_unwind(|| f(&w).to_string()) { Ok(t) => t, Err(_) => "ok".to_string() };
            }
            let (mut a, mut b) = (vec![], vec![]);
            match want.parse::<TokenStream>() { Ok(t) => flat(t, &mut b), Err(e) => return format!("harness: {}", e) }
            let got = f(&w);
            flat(got.clone(), &mut a);
            if a == b { "ok".to_string() } else { format!("{}\u{1}{:?}\u{1}{:?}", got, a, b) }
        }).unwrap_or_else(|e| format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()));
        let r = r.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r");
        out.write_all(format!(">{}\n", r).as_bytes()).unwrap();
        out.flush().unwrap();
    }
    TokenStream::new()
}
"##;

pub struct Built {
    kit: Kit,
    pm: std::path::PathBuf,
    index: HashMap<String, usize>,
}

fn build(codes: &[String]) -> Result<Built, (usize, String)> {
    let kit = Kit::new();
    let ext = vec![kit.art("json_quote")];
    let env = kit.compile("env", &env_source(true), "rlib", &[]).unwrap_or_else(|e| panic!("env: {}", e));
    let mut ext2 = ext.clone();
    ext2.push(env);
    let head = "#![recursion_limit = \"512\"]\n#![allow(warnings)]\nextern crate proc_macro;\n#[macro_use]\nextern crate json_quote;\nuse proc_macro::Span;
type Ts = proc_macro::TokenStream;
fn every_span(t: Ts, s: Span) -> Ts {
    fn all(t: Ts, s: &str, o: &mut String) {
        for x in t {
            if format!(\"{:?}\", x.span()) != s { o.push_str(&format!(\"\\\"{}\\\" \", x.to_string().replace('\"', \"'\"))); }
            if let proc_macro::TokenTree::Group(g) = &x { all(g.stream(), s, o); }
        }
    }
    let mut o = String::new();
    all(t, &format!(\"{:?}\", s), &mut o);
    if o.is_empty() { \"all\".parse().unwrap() } else { format!(\"other {}\", o).parse().unwrap() }
}
";
    let lets = env_source(false);
    let wrap = |c: &[(usize, &String)]| {
        let mut o = String::from(head);
        for (i, p) in c {
            // only the variables that are mentioned
            let l: Vec<&str> = lets.split_inclusive("; ").zip(ENV).filter(|(_, v)| p.contains(v.name)).map(|x| x.0).collect();
            o.push_str(&format!("fn f{}(w: &[u8]) -> Ts {{ {}\n{}\n}}\n", i, l.concat(), p));
        }
        o.push_str(&format!("pub static ROWS: &[fn(&[u8]) -> Ts] = &[{}];\n", c.iter().map(|x| format!("f{}", x.0)).collect::<Vec<_>>().join(",")));
        o
    };
    let chunk = (codes.len() / 32).clamp(1, 1500);
    let crates = rc::compile_pieces(&kit, "q", codes, chunk, "rlib", &ext2, &wrap)?;
    let rows: Vec<String> = crates.iter().map(|c| format!("rows.extend({}::ROWS);", c.0)).collect();
    let mut ext3 = ext2.clone();
    ext3.extend(crates.iter().cloned());
    let (_, pm) = kit.compile("pm", &[PRELUDE, &PM.replace("ROWS\n", &format!("{}\n", rows.join("\n")))].concat(), "proc-macro", &ext3).unwrap_or_else(|e| panic!("pm: {}", e));
    std::fs::write(kit.dir.join("drv.rs"), "pm::serve!();\nfn main() {}\n").unwrap();
    Ok(Built { pm, index: codes.iter().cloned().enumerate().map(|(i, s)| (s, i)).collect(), kit })
}
impl Built {
    fn command(&self) -> Command {
        let mut c = Command::new("rustc");
        c.args(["--edition", "2021", "--emit", "metadata", "--crate-name", "drv", "-Awarnings", "-o"]).arg(crate::rc::scratch(&self.kit)).arg("--extern").arg(format!("pm={}", self.pm.display())).arg(self.kit.dir.join("drv.rs"));
        c.current_dir(&self.kit.dir).stderr(std::process::Stdio::null());
        c
    }
}

fn payload(c: &Case) -> Vec<u8> {
    let v: Vec<String> = c.vals.iter().map(|x| x.to_string()).collect();
    format!("{}\0{}\0{}", c.code, v.join(","), c.want).into_bytes()
}
fn unpayload(p: &[u8]) -> (String, String, String) {
    let s = String::from_utf8_lossy(p).into_owned();
    let mut i = s.split('\0').map(String::from);
    (i.next().unwrap(), i.next().unwrap(), i.next().unwrap())
}

/// Families of cases that share one program.
pub fn explore(run: &mut Run, fams: Vec<(&'static str, &'static str, Vec<Case>)>) {
    let replaying = run.mode == crate::engine::Mode::Replay;
    let mut codes: Vec<String> = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    if replaying {
        codes.push(unpayload(&run.replay_payload).0);
    } else {
        for c in fams.iter().flat_map(|f| f.2.iter()) {
            if !seen.contains(&c.code) {
                seen.insert(c.code.clone());
                codes.push(c.code.clone());
            }
        }
    }
    drop(seen);
    if std::env::var("TIMES").is_ok() {
        println!("{} programs", codes.len());
        for (n, _, c) in &fams {
            println!("  {}: {} cases, {} programs", n, c.len(), c.iter().map(|x| &x.code).collect::<HashSet<_>>().len());
        }
    }
    let (built, bad) = match build(&codes) {
        Ok(b) => (Some(b), None),
        Err((i, m)) => (None, Some((codes[i].clone(), m))),
    };
    let pool = Pool::new(|| built.as_ref().unwrap().command());
    for (name, desc, cs) in fams {
        run.family(
            name,
            desc,
            cs.len() as u64,
            |i, b| {
                b.extend_from_slice(&payload(&cs[i as usize]));
                true
            },
            |p| {
                let (c, v, w) = unpayload(p);
                let mut o = c;
                for (x, k) in ENV.iter().zip(v.split(',')) {
                    if o.contains(x.name) {
                        o.push_str(&format!(" [{} = {}]", x.name, x.vals[k.parse::<usize>().unwrap()].0));
                    }
                }
                format!("{} is {}", o, w)
            },
            |p, t: &mut Tally| {
                let (c, v, w) = unpayload(p);
                t.calls += 1;
                if let Some((b, m)) = &bad {
                    return if *b == c { fail(format!("this use of quote! does not compile: {}", c), w, m.clone()) } else { Ok(()) };
                }
                let b = built.as_ref().unwrap();
                let got = pool.ask(&format!("{} {} {}", b.index[&c], v, w))?;
                if got == "ok" {
                    t.validated += 1;
                    Ok(())
                } else if got.starts_with("harness") {
                    panic!("expected text does not parse: {}: {}", js(&w), got);
                } else {
                    fail(format!("other tokens than written: {}", c), w, got.split('\u{1}').next().unwrap())
                }
            },
        );
    }
}

// ---------------------------------------------------------------- C20: plain tokens

pub const OPS: &[&str] = &[
    "->", "=>", "<=", ">=", "!=", "&&", "||", "==", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", ">>", "<<", ">>=", "<<=", "..", "...", "..=", "::", "+", "-", "*", "/", "%", "^", "&", "|", "!", "=", "<", ">", ",", ".", ":", ";", "@", "$", "?", "~",
];
pub const WORDS: &[&str] = &["a", "fn", "_", "r#fn", "self", "crate", "true", "\u{e9}x", "B9_", "'x", "'static", "'_", "1", "0x1F_u8", "1.5e3f64", "2.", "\"s\"", "\"q\\\"\\n\\\\\"", "r\"r\"", "r#\"h\"h\"#", "b\"y\"", "b'z'", "'c'", "'\\''", "1u8", "c\"c\"", "br#\"\"#", "\"#x\"", "0b1", "'\\u{e9}'"];
pub const GROUPS: &[&str] = &["( )", "{ }", "[ ]", "( a )", "{ b + 1 }", "[ ( { } ) , \"s\" ]", "( ; )", "{ a ; }", "[ ! ]", "( -> [ => ] )"];
pub const FORMS: &[&str] = &["# [ a ]", "# ! [ b ( c ) ]", "! ( d )", "! { e } ;", "! [ f ] ;", "( g ) ;", "{ h } ;", "[ i ] ;", "# [ ]", "m ! ( )"];

fn plain(seq: &[&str]) -> Case {
    let s = seq.join(" ");
    Case { code: format!("quote!( {} )", s), vals: vec![0; ENV.len()], want: s }
}
/// '$' cannot be written in front of an identifier or group that another macro would take for its own.
fn allowed(_: &[&str]) -> bool {
    true
}

pub fn c20(run: &mut Run) {
    run.assumptions.push("tokens are compared after putting joint punctuation together by longest match, spans aside; '#' before an identifier or parenthesis is a directive (C21)".into());
    let all: Vec<&'static str> = [OPS, WORDS, GROUPS, FORMS].concat();
    let core: Vec<&'static str> = vec![
        "a", "r#fn", "_", "'x", "1", "\"s\"", "'c'", "( )", "{ b + 1 }", "[ ! ]", "( g ) ;", "# [ a ]", "# ! [ b ( c ) ]", "! ( d )", "! { e } ;", ";", ",", "::", "->", "=>", "..", "..=", "...", "=", "==", "<", "<<", "<<=", ">", ">>", ">>=", "&", "&&", "&=", "|", "||", "!", "!=", "-", "-=", "+", "+=", ":", ".", "?", "$",
        "*", "/", "%", "^", "@", "~", ">=", "<=",
    ];
    let mut ones = vec![plain(&[])];
    let mut twos = vec![];
    for a in &all {
        ones.push(plain(&[a]));
        for b in &all {
            if allowed(&[a, b]) {
                twos.push(plain(&[a, b]));
            }
        }
    }
    let three: Vec<&'static str> = if run.thorough { core.clone() } else { core.iter().copied().take(46).collect() };
    let mut threes = vec![];
    for a in &three {
        for b in &three {
            for c in &three {
                threes.push(plain(&[a, b, c]));
            }
        }
    }
    // tokens written without white space between them
    let mut tight = vec![];
    for a in OPS {
        for b in OPS {
            if a.ends_with('#') || *b == "$" || *a == "$" {
                continue;
            }
            let s = format!("x {}{} y", a, b);
            // a comment begins
            if s.contains("//") || s.contains("/*") {
                continue;
            }
            tight.push(Case { code: format!("quote!({})", s), vals: vec![0; ENV.len()], want: s });
        }
        for b in ["a", "1", "\"s\"", "(b)", "'x", "{}", "[c]", "#[d]"] {
            for s in [format!("{}{}", b, a), format!("a{}{}", a, b), format!("({}{}{})", b, a, b)] {
                if *a == "$" && !s.ends_with(')') || s.contains("1.") || s.contains("..1") || (*a == "." && b == "1") || s.contains("1...") || *a == "$" || (b == "'x" && s.contains("'x'")) || s.contains("~'") {
                    continue;
                }
                tight.push(Case { code: format!("quote!({})", s), vals: vec![0; ENV.len()], want: s });
            }
        }
    }
    // leading identifiers, and what follows a long run of them
    let mut lead = vec![];
    for n in 0..8usize {
        let ids: Vec<&str> = ["a", "b", "fn", "_", "self", "x1", "r#fn", "\u{e9}"].iter().copied().take(n).collect();
        for t in &all {
            for end in ["", "z", "+"] {
                let mut v = ids.clone();
                v.push(t);
                if !end.is_empty() {
                    v.push(end);
                }
                lead.push(plain(&v));
            }
        }
    }
    // groups
    let mut groups = vec![];
    let inner: Vec<&'static str> = [&all[..], &[""]].concat();
    for (o, c) in [("(", ")"), ("{", "}"), ("[", "]"), ("# [", "]"), ("# ! [", "]"), ("! (", ")"), ("! {", "} ;"), ("! [", "]"), ("(", ") ;"), ("{", "} ;"), ("[", "] ;"), ("a (", ")"), ("a ! {", "}")] {
        for x in &inner {
            for y in ["", "a", ";", "( )"] {
                for (pre, post) in [("", ""), ("p", "q"), ("+", ";")] {
                    let v: Vec<&str> = [pre, o, x, y, c, post].into_iter().filter(|x| !x.is_empty()).collect();
                    groups.push(plain(&v));
                }
            }
        }
    }
    let mut nests = vec![];
    let br = [("(", ")"), ("{", "}"), ("[", "]"), ("# [", "]"), ("! (", ")"), ("{", "} ;")];
    for depth in 1..=4usize {
        for i in 0..br.len().pow(depth as u32) {
            let mut k = i;
            let mut v = vec![];
            let mut tail = vec![];
            for d in 0..depth {
                v.push(br[k % br.len()].0);
                tail.push(br[k % br.len()].1);
                k /= br.len();
                if d % 2 == 0 {
                    v.push("a");
                }
            }
            tail.reverse();
            v.push("::");
            v.extend(tail);
            nests.push(plain(&v));
        }
    }
    // long sequences: the macro recurs once per token
    let mut long = vec![];
    for n in [10usize, 20, 40, 80, 120] {
        for t in [&["a", "+"][..], &["x", ":", "'a", ","], &["( a )", ";"], &["a", "b", "c"], &["1", ","], &["#", "[", "a", "]"], &["::", "->"]] {
            if t[0] == "#" {
                let v: Vec<&str> = (0..n).map(|_| "# [ a ]").collect();
                long.push(plain(&v));
                continue;
            }
            let v: Vec<&str> = (0..n).map(|i| t[i % t.len()]).collect();
            long.push(plain(&v));
        }
    }
    let deep_code = |d: usize| {
        let s = format!("{}a{}", "( ".repeat(d), " )".repeat(d));
        Case { code: format!("quote!({})", s), vals: vec![0; ENV.len()], want: s }
    };
    for d in [5, 10, 20, 40] {
        long.push(deep_code(d));
    }
    explore(
        run,
        vec![
            ("one token", "every token kind alone, and none", ones),
            ("two tokens", "every pair of tokens (all operators, word and literal kinds, groups, attribute and macro-call forms)", twos),
            ("three tokens", "every triple over the core token kinds", threes),
            ("tight", "operators and their neighbours written without white space", tight),
            ("leading identifiers", "0 to 7 identifiers, then each token kind, then nothing or another", lead),
            ("groups", "each group form around each token kind, with and without neighbours", groups),
            ("nesting", "every nesting of group forms to depth 4", nests),
            ("long", "sequences of up to 120 tokens and groups of depth 40", long),
        ],
    );
}

// ---------------------------------------------------------------- C21: directives

/// Directives with a body, for each body.
fn bodies(bound: &'static str) -> Vec<Vec<El>> {
    vec![
        vec![V(bound)],
        vec![T("pub"), V(bound)],
        vec![V(bound), T(",")],
        vec![T("k"), T("="), V(bound), T(";")],
        vec![G("(", ")", vec![V(bound)])],
        vec![T("fn f"), G("{", "}", vec![T("+"), V(bound), V(bound)]), T("z")],
        vec![T("c")],
        vec![T("->"), T("'a"), G("[", "]", vec![T("1")])],
        vec![T("# [ a ]"), V(bound)],
        vec![V(bound), F("flag", |s| s.text("flag") == "true", '+', vec![T("!")])],
    ]
}
const SEPS: &[&str] = &[",", ";", "|", "=>", "::", "&&", ".", "and", "(s)", "->", "=", "1", "'l", "||", "<", "!", ":", "..=", "@", "/"];

fn len_of(n: &'static str) -> fn(&Scope) -> String {
    match n {
        "iter" => |s| format!("{}usize", s.elems("iter").len()).replace("usize", ""),
        _ => panic!(),
    }
}

/// Every form of directive, plain.
fn directives() -> Vec<Vec<El>> {
    let mut d: Vec<Vec<El>> = vec![];
    for v in ["var", "num", "flag"] {
        d.push(vec![V(v)]);
    }
    let ex: Vec<El> = vec![
        E("var", |s| s.text("var")),
        E("num", |s| s.text("num")),
        E("1 + 2", |_| "3".into()),
        E("num * 2", |s| format!("{}", s.int("num") * 2)),
        E("-num", |s| format!("{}", -s.int("num"))),
        E("!flag", |s| format!("{}", s.text("flag") != "true")),
        E("iter.len()", len_of("iter")),
        E("iter.first().unwrap_or(&\"none\")", |s| s.elems("iter").first().cloned().unwrap_or("none".into())),
        E("format!(\"a{}\", flag)", |s| format!("a{}", s.text("flag"))),
        E("{ let k = num; k + 1 }", |s| format!("{}", s.int("num") + 1)),
        E("if flag { \"t\" } else { \"e +\" }", |s| if s.text("flag") == "true" { "t".into() } else { "e +".into() }),
        E("match opt { Some(x) => x, None => \"n\" }", |s| if s.elems("opt").is_empty() { "n".into() } else { s.text("opt") }),
        E("&var", |s| s.text("var")),
        E("\"lit\"", |_| "lit".into()),
        E("(num, var).0", |s| s.text("num")),
        E("(|x: i32| x + 1)(num)", |s| format!("{}", s.int("num") + 1)),
        E("var.to_string() + \" z\"", |s| format!("{} z", s.text("var"))),
        E("(num)", |s| s.text("num")),
        E("'c'", |_| "c".into()),
        E("more.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(\"+\")", |s| s.elems("more").join("+")),
        E("quote!(p #num q)", |s| format!("p {} q", s.text("num"))),
        E("vec![1, 2][1]", |_| "2".into()),
        E("num as i64 - 1", |s| format!("{}", s.int("num") - 1)),
    ];
    for e in ex {
        d.push(vec![e]);
    }
    let conds: Vec<(&'static str, fn(&Scope) -> bool)> = vec![("flag", |s| s.text("flag") == "true"), ("(num > 0)", |s| s.int("num") > 0), ("(!flag)", |s| s.text("flag") != "true"), ("(opt.is_some() && flag)", |s| !s.elems("opt").is_empty() && s.text("flag") == "true")];
    for (s, f) in conds {
        for sign in ['+', '-'] {
            // a negated expression binds as an expression only if it is one operand
            if sign == '-' && s.contains("num >") {
                continue;
            }
            if sign == '-' && s.contains("&&") {
                continue;
            }
            for b in [vec![T("pub")], vec![T("a"), T("+"), V("num")], vec![G("(", ")", vec![T("crate")]), T("z")], vec![V("var")], vec![T("-> x")], vec![L("opt", "opt", None, "", "", '?')], vec![L("iter", "iter", None, "", ",", '*'), T(";")], vec![F("flag", |s| s.text("flag") == "true", '-', vec![T("no")]), T("k")]] {
                d.push(vec![F(s, f, sign, b)]);
            }
        }
    }
    for (s, v) in [("opt", "opt"), ("(opt)", "opt"), ("(Some(num))", "num"), ("(if flag { Some(1) } else { None })", "flag1"), ("(opt.as_ref())", "opt")] {
        if v == "flag1" {
            continue;
        }
        d.push(vec![L(s, v, None, "", "", '?')]);
        for b in bodies("x") {
            d.push(vec![L(s, v, Some(("x", b)), "", "", '?')]);
        }
        d.push(vec![L(s, v, Some(("_", vec![T("some"), V("num")])), "", "", '?')]);
    }
    d.push(vec![L("opt", "opt", Some(("x", vec![E("x.len()", |s| format!("{}", s.text("x").len())), T("q"), E("x.to_string()", |s| s.text("x"))])), "", "", '?')]);
    for (s, v) in [("iter", "iter"), ("(iter)", "iter"), ("(more.iter().map(|x| x.to_string()))", "more"), ("more", "more"), ("(iter.to_vec())", "iter")] {
        d.push(vec![L(s, v, None, "", "", '*')]);
        for sep in SEPS {
            d.push(vec![L(s, v, None, "", sep, '*')]);
            d.push(vec![L(s, v, None, sep, "", '*')]);
        }
        for sep in ["+", "-", ">"] {
            d.push(vec![L(s, v, None, "", sep, '*')]);
        }
        for b in bodies("x") {
            d.push(vec![L(s, v, Some(("x", b.clone())), "", "", '*')]);
            for sep in &SEPS[..8] {
                d.push(vec![L(s, v, Some(("x", b.clone())), "", sep, '*')]);
            }
        }
        d.push(vec![L(s, v, Some(("_", vec![T("one"), V("num")])), "", "", '*')]);
        d.push(vec![L(s, v, Some(("_", vec![T("one"), V("num")])), "", ",", '*')]);
        d.push(vec![L(s, v, Some(("_", vec![G("{", "}", vec![])])), "", "=>", '*')]);
    }
    // nested
    d.push(vec![L("iter", "iter", Some(("x", vec![V("x"), T(":"), L("more", "more", Some(("y", vec![V("y"), V("x")])), "", "|", '*')])), "", ",", '*')]);
    d.push(vec![L("deep", "deep", Some(("x", vec![T("in"), L("x", "x", None, "", ",", '*')])), "", "", '?')]);
    d.push(vec![L("deep", "deep", Some(("x", vec![L("x", "x", Some(("y", vec![T("&"), V("y")])), "", "+ ", '*')])), "", "", '?')]);
    d.retain(|e| !matches!(&e[0], L(_, "deep", Some((_, b)), ..) if matches!(&b[0], L(_, _, Some(_), _, "+ ", _))));
    d.push(vec![L("deep", "deep", Some(("x", vec![L("x", "x", Some(("y", vec![T("&"), V("y"), L("more", "more", None, "", "", '*')])), "", ";", '*')])), "", "", '?')]);
    d.push(vec![L("iter", "iter", Some(("x", vec![L("opt", "opt", Some(("y", vec![V("x"), T("="), V("y")])), "", "", '?')])), "", ";", '*')]);
    // the body's name hides a variable
    d.push(vec![L("iter", "iter", Some(("var", vec![V("var"), T("!")])), "", "", '*'), V("var")]);
    d.push(vec![L("opt", "opt", Some(("opt", vec![V("opt")])), "", "", '?'), L("opt", "opt", None, "", "", '?')]);
    d.push(vec![T("##")]);
    d
}

/// A few directives, one per arm, for pairs.
fn few() -> Vec<Vec<El>> {
    let fl: fn(&Scope) -> bool = |s| s.text("flag") == "true";
    vec![
        vec![V("num")],
        vec![E("num + 1", |s| format!("{}", s.int("num") + 1))],
        vec![F("flag", fl, '+', vec![T("pub"), V("num")])],
        vec![F("flag", fl, '-', vec![T("pub")])],
        vec![F("(flag)", fl, '+', vec![T("p")])],
        vec![F("(flag)", fl, '-', vec![T("p"), T(";")])],
        vec![L("opt", "opt", None, "", "", '?')],
        vec![L("(opt)", "opt", None, "", "", '?')],
        vec![L("opt", "opt", Some(("x", vec![T("k ="), V("x")])), "", "", '?')],
        vec![L("(opt)", "opt", Some(("x", vec![V("x"), T(",")])), "", "", '?')],
        vec![L("opt", "opt", Some(("_", vec![T("u")])), "", "", '?')],
        vec![L("(opt)", "opt", Some(("_", vec![T("u"), T("+")])), "", "", '?')],
        vec![L("iter", "iter", None, "", "", '*')],
        vec![L("(iter)", "iter", None, "", "", '*')],
        vec![L("iter", "iter", None, "", ",", '*')],
        vec![L("(iter)", "iter", None, "", "=>", '*')],
        vec![L("iter", "iter", None, ";", "", '*')],
        vec![L("(iter)", "iter", None, "|", "", '*')],
        vec![L("iter", "iter", Some(("x", vec![T("pub"), V("x")])), "", "", '*')],
        vec![L("(iter)", "iter", Some(("x", vec![V("x"), T("b")])), "", "", '*')],
        vec![L("iter", "iter", Some(("x", vec![T("pub"), V("x")])), "", ",", '*')],
        vec![L("(iter)", "iter", Some(("x", vec![G("(", ")", vec![V("x")])])), "", "::", '*')],
        vec![L("iter", "iter", Some(("_", vec![T("w")])), "", "", '*')],
        vec![L("(iter)", "iter", Some(("_", vec![T("w")])), "", "", '*')],
        vec![L("iter", "iter", Some(("_", vec![T("w")])), "", ",", '*')],
        vec![L("(iter)", "iter", Some(("_", vec![T("w"), T("w")])), "", ";", '*')],
        vec![T("##")],
    ]
}

pub fn c21(run: &mut Run) {
    run.assumptions.push("tokens are compared after putting joint punctuation together by longest match, spans aside".into());
    run.assumptions.push("separators other than '?' and '*', and in the :name forms other than '+' and '-' (there the syntax is that of the option and flag forms)".into());
    let all = directives();
    let some = few();
    let mut alone = vec![];
    for d in &all {
        cases(d, &mut alone);
    }
    // one value each is enough where the neighbours are the point; an option, a list and a flag need more
    let prefixes: Vec<Vec<El>> = vec![
        vec![], vec![T("a")], vec![T("a b c")], vec![T("+")], vec![T("a"), T("+")], vec![T("fn f")], vec![T("1")], vec![T("'a")], vec![G("(", ")", vec![T("q")])], vec![T("# [ a ]")], vec![T("a"), T(";")], vec![T("r#fn")], vec![T("::")], vec![T("!")], vec![T("&")], vec![T("m"), T("!")], vec![T("->")], vec![T("##")],
    ];
    let suffixes: Vec<Vec<El>> = vec![
        vec![], vec![T("z")], vec![T("+"), T("z")], vec![T("?"), T("z")], vec![T("*"), T("z")], vec![T(","), T("z")], vec![T(";")], vec![G("(", ")", vec![T("z")])], vec![G("{", "}", vec![T("z")]), T(";")], vec![T("! ( z ) ;")], vec![T("::"), T("z")], vec![G("[", "]", vec![T("z")])], vec![T("-"), T("1")], vec![T(":"), T("z")], vec![T("# [ z ]")], vec![T("=")], vec![T("."), T("z")], vec![T("'z")], vec![T(","), T("*")], vec![T("z"), T("*")],
    ];
    let fits = |d: &[El], s: &[El]| -> bool {
        // what follows must not be taken for the mark of another form
        let first = match s.first() {
            Some(T(x)) => *x,
            _ => "",
        };
        let second = match s.get(1) {
            Some(T(x)) => *x,
            _ => "",
        };
        match d.last() {
            // #(#opt)? * is a list separated by ?: not written that way
            Some(L(..)) | Some(F(..)) => true,
            Some(E(..)) => !(first == "*" || second == "*"),
            _ => true,
        }
    };
    let mut around = vec![];
    for d in &some {
        for p in &prefixes {
            for s in &suffixes {
                if fits(d, s) {
                    cases(&[&p[..], &d[..], &s[..]].concat(), &mut around);
                }
            }
        }
    }
    let mut pairs = vec![];
    for d in &some {
        for e in &some {
            for mid in [vec![], vec![T("a")], vec![T(",")], vec![T("+")], vec![T("a"), T("::")]] {
                if fits(d, &mid) {
                    cases(&[&d[..], &mid[..], &e[..]].concat(), &mut pairs);
                }
            }
        }
    }
    let mut inside = vec![];
    let wraps: Vec<(&'static str, &'static str)> = vec![("(", ")"), ("{", "}"), ("[", "]"), ("# [", "]"), ("# ! [", "]"), ("! (", ")"), ("! {", "} ;"), ("! [", "] ;"), ("(", ") ;"), ("{", "} ;"), ("[", "] ;"), ("! (", ") ;"), ("! {", "}"), ("! [", "]")];
    for d in &some {
        for (o, c) in &wraps {
            for (pre, post) in [(None, None), (Some("a"), Some("z")), (Some("+"), Some(";")), (Some("a b"), None), (None, Some("z"))] {
                let mut v = d.clone();
                if let Some(p) = pre {
                    v.insert(0, T(p));
                }
                if let Some(p) = post {
                    v.push(T(p));
                }
                cases(&[G(o, c, v.clone())], &mut inside);
                cases(&[T("m"), G(o, c, v.clone()), T("z")], &mut inside);
                for (o2, c2) in &wraps[..4] {
                    cases(&[T("k"), G(o2, c2, vec![T("h"), G(o, c, v.clone())])], &mut inside);
                }
            }
        }
    }
    let mut triples = vec![];
    if run.thorough {
        for a in &some {
            for b in &some {
                for c in &some {
                    for mid in [None, Some("a"), Some(",")] {
                        let m: Vec<El> = mid.map(T).into_iter().collect();
                        let v = [&a[..], &m[..], &b[..], &m[..], &c[..]].concat();
                        let before = triples.len();
                        cases(&v, &mut triples);
                        // the values that matter: the last and the first few
                        let keep = 6;
                        if triples.len() - before > keep {
                            let n = triples.len();
                            let step = (n - before) / keep;
                            let sel: Vec<Case> = (0..keep).map(|k| triples[n - 1 - k * step].clone()).collect();
                            triples.truncate(before);
                            triples.extend(sel);
                        }
                    }
                }
            }
        }
    }
    // values of ordinary owned types, used once
    let mut owned = vec![];
    for (code, want) in OWNED {
        owned.push(Case { code: code.to_string(), vals: vec![0; ENV.len()], want: want.to_string() });
    }
    let many = counted(run.thorough, &some);
    explore(
        run,
        vec![
            ("counts", "lists of n elements in seven forms (n = 0..40 and a ladder to 1000, thorough 5000); n directives in a row, n tokens before, after and in a directive, directives n groups deep and lists n lists deep (n = 0..24 and a ladder to 60)", many),
            ("alone", "every directive form, expression, body and separator, with every combination of values of the variables it uses", alone),
            ("around", "one directive per macro arm between every pair of neighbours", around),
            ("pairs", "every two directives in sequence, adjacent and with tokens between", pairs),
            ("inside", "every directive inside every group form, to depth 2, with and without neighbours", inside),
            ("triples", "every three directives in sequence (thorough tier)", triples),
            ("owned", "owned values: String, Vec, Option, Box, references, TokenStream, tuples and structs, numbers of all kinds", owned),
        ],
    );
}

/// Many of a thing: elements, directives, tokens, depth.
fn counted(full: bool, some: &[Vec<El>]) -> Vec<Case> {
    let mut out = vec![];
    let top: Vec<usize> = (0..=40).chain([48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]).chain(if full { vec![2048, 5000] } else { vec![] }).collect();
    for n in top {
        let is = |sep: &str, f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep);
        let mut put = |code: String, want: String| out.push(Case { code, vals: vec![0; ENV.len()], want });
        let v = format!("let v: Vec<usize> = (0..{}).collect();", n);
        put(format!("{{ {} quote!(a #(#v)* b) }}", v), format!("a {} b", is(" ", &|i| i.to_string())));
        put(format!("{{ {} quote!(#(#v),*) }}", v), is(" , ", &|i| i.to_string()));
        put(format!("{{ {} quote!(#(#v;)*) }}", v), is("", &|i| format!("{} ; ", i)));
        put(format!("{{ {} quote!([#(#v:x f (#x, #(x * 2)))=>*]) }}", v), format!("[ {} ]", is(" => ", &|i| format!("f ( {} , {} )", i, i * 2))));
        put(format!("quote!(#(#(0..{}):_ u)* z)", n), format!("{} z", is(" ", &|_| "u".into())));
        put(format!("{{ {} quote!(#(#v:x #(#(x % 3 == 0):t #x)+ #(#(x % 3 == 0):e)- )*) }}", v), is(" ", &|i| if i % 3 == 0 { format!("t {}", i) } else { "e".into() }));
        put(format!("quote!(#(#(0..{}).map(|x| if x % 2 == 0 {{ Some(x) }} else {{ None }}):x < #(#x)? >)|*)", n).replace("#(#(0..", "#(#((0..").replace("}):x", "})):x"), is(" | ", &|i| if i % 2 == 0 { format!("< {} >", i) } else { "< >".into() }));
        // a string of n tokens for one name
        put(format!("{{ let s = \"a + \".repeat({}); quote!([ #s ] #s) }}", n), format!("[ {0} ] {0}", is(" ", &|_| "a +".into())));
    }
    let s = |x: String| -> &'static str { Box::leak(x.into_boxed_str()) };
    for n in (0..=24usize).chain([31, 32, 33, 40, 48, 60]) {
        let mut row = |e: Vec<El>, all: bool| {
            let mut c = vec![];
            cases(&e, &mut c);
            // the first, the last and the middle of the values
            let k = c.len();
            let mut pick = if all { (0..k).collect() } else { vec![0, k / 2, k - 1] };
            pick.dedup();
            out.extend(pick.into_iter().map(|i| c[i].clone()));
        };
        let toks = |k: usize| (0..n).map(|i| T(["a", "+", "'l", ",", "fn", "1", ";", "::"][(i * k + i / 8) % 8])).collect::<Vec<El>>();
        let words = || (0..n).map(|i| T(s(format!("w{}", i)))).collect::<Vec<El>>();
        row((0..n).map(|_| V("num")).collect(), true);
        row((0..n).flat_map(|i| some[i % some.len()].clone()).collect(), false);
        row((0..n).flat_map(|i| [some[(i * 5 + 3) % some.len()].clone(), vec![T(s(format!("w{}", i)))]].concat()).collect(), false);
        for d in some {
            // long arguments of the largest forms go over the compiler's limit
            row([toks(1), d.clone()].concat(), false);
            row([words(), d.clone(), toks(3)].concat(), false);
        }
        for b in [toks(1), words(), toks(3)] {
            let fl: fn(&Scope) -> bool = |s| s.text("flag") == "true";
            let with = |mut b: Vec<El>, x: &'static str| {
                b.insert(b.len() / 2, V(x));
                b
            };
            row(vec![F("flag", fl, '+', with(b.clone(), "num"))], true);
            row(vec![F("(flag)", fl, '-', with(b.clone(), "num"))], true);
            row(vec![L("opt", "opt", Some(("x", with(b.clone(), "x"))), "", "", '?')], true);
            row(vec![L("iter", "iter", Some(("x", with(b.clone(), "x"))), "", ",", '*'), T("z")], true);
            row(vec![L("(more)", "more", Some(("x", with(b.clone(), "x"))), "", "", '*')], true);
        }
        if n <= 40 {
            for d in some {
                let mut e = d.clone();
                for i in 0..n {
                    let (o, c) = [("(", ")"), ("{", "}"), ("[", "]"), ("# [", "]"), ("! (", ")")][i % 5];
                    e = vec![G(o, c, e)];
                }
                row(e, false);
            }
        }
        if n <= 7 {
            let names = ["x0", "x1", "x2", "x3", "x4", "x5", "x6"];
            let mut e: Vec<El> = names[..n].iter().map(|x| V(x)).collect();
            let mut g = e.clone();
            for x in names[..n].iter().rev() {
                e = vec![L("more", "more", Some((x, [vec![T("b")], e].concat())), "", ",", '*'), T("e")];
                g = vec![L("opt", "opt", Some((x, [vec![T("b")], g].concat())), "", "", '?'), T("e")];
            }
            row(e, true);
            row(g, true);
        }
    }
    out
}

const OWNED: &[(&str, &str)] = &[
    ("{ let s = String::from(\"x y\"); quote!(#s) }", "x y"),
    ("{ let s = &String::from(\"x y\"); quote!(a #s b) }", "a x y b"),
    ("{ let s = Box::new(5u8); quote!(#s #s) }", "5 5"),
    ("{ let v = vec![String::from(\"a\"), String::from(\"b\")]; quote!(#(#v),*) }", "a , b"),
    ("{ let v = vec![String::from(\"a\"), String::from(\"b\")]; quote!(#(#(&v)),* #(#v:x #x;)*) }", "a , b a ; b ;"),
    ("{ let v = vec![(1, \"a\"), (2, \"b\")]; quote!(#(#v:x #(x.1) = #(x.0)),*) }", "a = 1 , b = 2"),
    ("{ let v: Vec<String> = vec![]; quote!([#(#(&v)),*] #(#v:x #x)*) }", "[ ]"),
    ("{ let v = [1u8, 2, 3]; quote!(#(#v)|*) }", "1 | 2 | 3"),
    ("{ let v = 0..4; quote!(#(#v)+*) }", "0 + 1 + 2 + 3"),
    ("{ let v = std::collections::BTreeMap::from([(1, 2), (3, 4)]); quote!(#(#v:x #(x.0) => #(x.1)),*) }", "1 => 2 , 3 => 4"),
    ("{ let o = Some(String::from(\"o\")); quote!(#(#(&o))? #(#o:x is #x)?) }", "o is o"),
    ("{ let o: Option<u8> = None; quote!(a #(#o)? #(#o:x is #x)? b) }", "a b"),
    ("{ let o = Some(Some(3)); quote!(#(#o:x #(#x:y [#y])?)?) }", "[ 3 ]"),
    ("{ let t: proc_macro::TokenStream = \"a (b + c) 'd\".parse().unwrap(); quote!(#t . #t) }", "a (b + c) 'd . a (b + c) 'd"),
    ("{ let t = quote!(fn f() {}); quote!(pub #t) }", "pub fn f ( ) { }"),
    ("{ let c = 'x'; let f = 1.5f64; let b = true; let n = -3i128; quote!(#c #f #b #n) }", "x 1.5 true - 3"),
    ("{ struct P { a: u8, b: Vec<u8> } let p = P { a: 1, b: vec![2, 3] }; quote!(#(p.a) [#(#(p.b)),*]) }", "1 [ 2 , 3 ]"),
    ("{ let name = \"say\"; let args = quote!(name: &str, age: i32); let body = \"println!(\\\"{}\\\", name);\"; quote! { pub fn #name(#args) { #body } } }", "pub fn say ( name : & str , age : i32 ) { println ! ( \"{}\" , name ) ; }"),
    ("{ let vis = true; let opt = Some(\"opt\"); quote!(#(#vis:pub)+ #(#vis:priv)- #(#opt:x k = #x)?) }", "pub k = opt"),
    ("{ let iter = vec![\"foo\", \"bar\"]; let expr = &iter; quote!(#(expr[0])) }", "foo"),
    ("{ let iter = vec![\"foo\", \"bar\"]; quote!(#(#iter:x pub #x),*) }", "pub foo , pub bar"),
    ("{ let x = \"outer\"; let iter = vec![1, 2]; quote!(#x #(#iter:x #x)* #x) }", "outer 1 2 outer"),
    ("{ let n = 3; quote!(#(#(0..n):i #(#(0..i):j #j),* ;)*) }", "; 0 ; 0 , 1 ;"),
    ("{ let r = &&5; quote!(#r) }", "5"),
    ("{ let a = std::rc::Rc::new(String::from(\"z\")); quote!(#a #(a.len())) }", "z 1"),
    ("{ let s = std::borrow::Cow::Borrowed(\"q\"); quote!(#s) }", "q"),
    ("{ let v = vec![Some(1), None]; quote!(#(#v:x <#(#x)?>),*) }", "< 1 > , < >"),
    ("{ let v = vec![true, false]; quote!(#(#v:x #(#x:yes)+ #(#x:no)-),*) }", "yes , no"),
    ("{ let r#type = 1; quote!(#r#type) }", "1"),
    ("{ let mut v = vec![1]; v.push(2); let v2 = &mut v; quote!(#(#v2)*) }", "1 2"),
];
