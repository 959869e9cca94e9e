//! C26: the modifiers and scope commands of quote!, against a small preprocessor.
use crate::engine::Run;
use crate::quote::{explore, Case, ENV, FORMS, GROUPS, OPS, WORDS};
use std::collections::BTreeMap;

/// A token of a block, a definition, a macro body or an argument.
#[derive(Clone, Debug)]
enum Tok {
    T(&'static str),
    G(&'static str, &'static str, Vec<Tok>),
    /// #name
    V(&'static str),
    /// #(name(arguments))
    C(&'static str, Vec<Vec<Tok>>),
}
use Tok::*;

#[derive(Clone, Debug)]
enum Cmd {
    Block(Vec<Tok>),
    /// #define(name, tokens); names in the tokens are variables of the program
    Def(&'static str, Vec<Tok>),
    DefNone(&'static str),
    /// #define(name(args), body)
    Mac(&'static str, &'static [&'static str], Vec<Tok>),
    Undef(&'static str),
    Ifdef(&'static str),
    Ifndef(&'static str),
    If(Cond),
    Elif(Cond),
    Else,
    Endif,
    /// #foreach(list, name)
    For(&'static str, &'static str),
    ForN(&'static str),
    /// the same over a list whose expression raises the counter
    ForC(&'static str, &'static str),
    ForCN(&'static str),
    Endfor,
    /// tokens given as they are, names in them being variables of the program
    Quote(Vec<Tok>),
    /// the source of an expression and the tokens it holds, definitions replaced
    Include(&'static str, Vec<Tok>),
    /// n += 1
    Exec,
    End,
}
use Cmd::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cond {
    True,
    False,
    Flag,
    NotFlag,
    Positive,
    Zero,
    /// the counter is above
    Counter(i64),
    /// true, and raises the counter when it is looked at
    Counting,
}
impl Cond {
    fn source(self) -> String {
        match self {
            Cond::True => "true".into(),
            Cond::False => "1 > 2".into(),
            Cond::Flag => "flag".into(),
            Cond::NotFlag => "!flag".into(),
            Cond::Positive => "num > 0".into(),
            Cond::Zero => "num == 0 && true".into(),
            Cond::Counter(k) => format!("n > {}", k),
            Cond::Counting => "{ n += 1; true }".into(),
        }
    }
}

/// The variables of the program.
struct Vars<'a>(&'a [u8]);
impl Vars<'_> {
    fn elems(&self, name: &str) -> Vec<String> {
        let v = ENV.iter().position(|v| v.name == name).unwrap_or_else(|| panic!("no variable {}", name));
        ENV[v].vals[self.0[v] as usize].1.iter().map(|x| x.to_string()).collect()
    }
    fn text(&self, name: &str) -> String {
        self.elems(name).concat()
    }
    fn cond(&self, c: Cond, n: &mut i64) -> bool {
        let int = |s: String| s.replace(' ', "").parse::<i64>().unwrap();
        match c {
            Cond::True => true,
            Cond::False => false,
            Cond::Flag => self.text("flag") == "true",
            Cond::NotFlag => self.text("flag") != "true",
            Cond::Positive => int(self.text("num")) > 0,
            Cond::Zero => int(self.text("num")) == 0,
            Cond::Counter(k) => *n > k,
            Cond::Counting => {
                *n += 1;
                true
            }
        }
    }
}

fn toks(v: &[Tok], o: &mut String) {
    for t in v {
        o.push(' ');
        match t {
            T(s) => o.push_str(s),
            V(n) => o.push_str(&format!("#{}", n)),
            G(a, b, v) => {
                o.push_str(a);
                toks(v, o);
                o.push_str(&format!(" {}", b));
            }
            C(m, args) => {
                o.push_str(&format!("#({}(", m));
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    toks(a, o);
                }
                o.push_str("))");
            }
        }
    }
}

fn source(p: &[Cmd]) -> String {
    let mut o = String::new();
    let tail = |v: &[Tok]| {
        let mut o = String::new();
        toks(v, &mut o);
        o
    };
    for c in p {
        o.push(' ');
        match c {
            Block(v) => o.push_str(&format!("{{{} }}", tail(v))),
            Def(n, v) => o.push_str(&format!("#define({},{})", n, tail(v))),
            DefNone(n) => o.push_str(&format!("#define({})", n)),
            Mac(n, a, v) => o.push_str(&format!("#define({}({}),{})", n, a.join(", "), tail(v))),
            Undef(n) => o.push_str(&format!("#undef({})", n)),
            Ifdef(n) => o.push_str(&format!("#ifdef({})", n)),
            Ifndef(n) => o.push_str(&format!("#ifndef({})", n)),
            If(c) => o.push_str(&format!("#if({})", c.source())),
            Elif(c) => o.push_str(&format!("#elif({})", c.source())),
            Else => o.push_str("#else"),
            Endif => o.push_str("#endif"),
            For(l, n) => o.push_str(&format!("#foreach({}, {})", l, n)),
            ForN(l) => o.push_str(&format!("#foreach({})", l)),
            ForC(l, n) => o.push_str(&format!("#foreach({{ n += 1; {}.to_vec() }}, {})", l, n)),
            ForCN(l) => o.push_str(&format!("#foreach({{ n += 1; {}.to_vec() }})", l)),
            Endfor => o.push_str("#endfor"),
            Quote(v) => o.push_str(&format!("#quote({})", tail(v))),
            Include(s, _) => o.push_str(&format!("#include({})", s)),
            Exec => o.push_str("#execute(n += 1)"),
            End => o.push_str("#end"),
        }
    }
    o
}

#[derive(Default, Clone)]
struct State {
    defs: BTreeMap<String, String>,
    macros: BTreeMap<&'static str, (&'static [&'static str], Vec<Tok>, Vec<u8>)>,
}

/// Tokens with names replaced by what `name` says; calls as macros.
fn replace(v: &[Tok], name: &dyn Fn(&str) -> String, call: &dyn Fn(&str, Vec<String>) -> String, o: &mut String) {
    for t in v {
        match t {
            T(s) => o.push_str(&format!(" {}", s)),
            V(n) => o.push_str(&format!(" {}", name(n))),
            G(a, b, v) => {
                o.push_str(&format!(" {}", a));
                replace(v, name, call, o);
                o.push_str(&format!(" {}", b));
            }
            C(m, args) => {
                let args = args
                    .iter()
                    .map(|a| {
                        let mut s = String::new();
                        replace(a, name, call, &mut s);
                        s
                    })
                    .collect();
                o.push_str(&format!(" {}", call(m, args)));
            }
        }
    }
}
impl State {
    fn block(&self, v: &[Tok], o: &mut String) {
        replace(
            v,
            &|n| self.defs.get(n).cloned().unwrap_or_default(),
            &|m, args| match self.macros.get(m) {
                None => String::new(),
                Some((names, body, vals)) => {
                    assert_eq!(names.len(), if args.len() == 1 && args[0].trim().is_empty() && names.is_empty() { 0 } else { args.len() }, "{}", m);
                    let mut s = String::new();
                    replace(body, &|n| names.iter().position(|x| *x == n).map(|i| args[i].clone()).unwrap_or_else(|| Vars(vals).text(n)), &|_, _| unreachable!(), &mut s);
                    s
                }
            },
            o,
        );
    }
}

/// What the commands give.
fn meaning(p: &[Cmd], vals: &[u8]) -> String {
    let vars = Vars(vals);
    let mut st = State::default();
    let mut n = 0i64;
    let mut o = String::new();
    // (active outside, a branch was taken)
    let mut ifs: Vec<(bool, bool)> = vec![];
    let mut on = true;
    let mut each: Option<(Vec<String>, Option<&'static str>)> = None;
    let quoted = |v: &[Tok]| {
        let mut s = String::new();
        replace(v, &|n| vars.text(n), &|_, _| unreachable!(), &mut s);
        s
    };
    for c in p {
        match c {
            Block(v) => {
                if !on {
                    continue;
                }
                match &each {
                    None => st.block(v, &mut o),
                    Some((es, name)) => {
                        let mut inner = st.clone();
                        for e in es {
                            if let Some(x) = name {
                                inner.defs.insert(x.to_string(), e.clone());
                            }
                            inner.block(v, &mut o);
                        }
                    }
                }
            }
            Def(x, v) if on => {
                st.defs.insert(x.to_string(), quoted(v));
            }
            DefNone(x) if on => {
                st.defs.insert(x.to_string(), String::new());
            }
            Mac(x, a, v) if on => {
                st.macros.insert(x, (a, v.clone(), vals.to_vec()));
            }
            Undef(x) if on => {
                st.defs.remove(*x);
                st.macros.remove(x);
            }
            Quote(v) if on => o.push_str(&quoted(v)),
            Include(_, v) if on => st.block(v, &mut o),
            Exec if on => n += 1,
            Ifdef(_) | Ifndef(_) | If(_) => {
                let v = on
                    && match c {
                        Ifdef(x) => st.defs.contains_key(*x) || st.macros.contains_key(x),
                        Ifndef(x) => !(st.defs.contains_key(*x) || st.macros.contains_key(x)),
                        If(c) => vars.cond(*c, &mut n),
                        _ => unreachable!(),
                    };
                ifs.push((on, v));
                on = v;
            }
            Elif(c) => {
                let top = ifs.last_mut().unwrap();
                on = top.0 && !top.1 && vars.cond(*c, &mut n);
                top.1 |= on;
            }
            Else => {
                let top = ifs.last_mut().unwrap();
                on = top.0 && !top.1;
                top.1 = true;
            }
            Endif => on = ifs.pop().unwrap().0,
            For(l, x) => each = Some((vars.elems(l), Some(x))),
            ForN(l) => each = Some((vars.elems(l), None)),
            ForC(l, x) => {
                n += on as i64;
                each = Some((vars.elems(l), Some(x)))
            }
            ForCN(l) => {
                n += on as i64;
                each = Some((vars.elems(l), None))
            }
            Endfor => each = None,
            _ => {}
        }
    }
    o
}

/// Whether a word breaks the rules of the commands where they count; None: only where nothing counts.
fn misused(p: &[Cmd]) -> Option<bool> {
    let mut ifs: Vec<(bool, bool)> = vec![];
    let (mut on, mut each) = (true, false);
    let mut defined = false;
    for c in p {
        let wrong = match c {
            Block(_) | End => false,
            Endfor => !each,
            _ if each => true,
            Elif(_) | Else | Endif => ifs.is_empty(),
            _ => false,
        };
        if wrong {
            return if on { Some(true) } else { None };
        }
        match c {
            Def(..) if on => defined = true,
            Undef(_) if on => defined = false,
            For(..) | ForN(_) => each = true,
            Endfor => each = false,
            If(_) | Ifdef(_) => {
                let v = on && match c { If(c) => *c == Cond::True, _ => defined };
                ifs.push((on, v));
                on = v;
            }
            Elif(c) => {
                let top = ifs.last_mut().unwrap();
                on = top.0 && !top.1 && *c == Cond::True;
                top.1 |= on;
            }
            Else => {
                let top = ifs.last_mut().unwrap();
                on = top.0 && !top.1;
                top.1 = true;
            }
            Endif => on = ifs.pop().unwrap().0,
            _ => {}
        }
    }
    Some(false)
}

/// Token trees, written with spaces between all tokens.
#[derive(Clone, PartialEq)]
enum Tree {
    Leaf(String),
    Group(String, Vec<Tree>),
}
use Tree::*;
type Defs = BTreeMap<String, Vec<Tree>>;
type Macros = BTreeMap<&'static str, (Vec<&'static str>, Vec<Tree>)>;
fn trees(s: &str) -> Vec<Tree> {
    let mut st = vec![(String::new(), vec![])];
    for w in s.split_whitespace() {
        match w {
            "(" | "[" | "{" => st.push((w.to_string(), vec![])),
            ")" | "]" | "}" => {
                let (o, v) = st.pop().unwrap();
                st.last_mut().unwrap().1.push(Group(o, v));
            }
            _ => st.last_mut().unwrap().1.push(Leaf(w.into())),
        }
    }
    st.pop().unwrap().1
}
fn flat(v: &[Tree], o: &mut String) {
    for t in v {
        match t {
            Leaf(s) => o.push_str(&format!(" {}", s)),
            Group(a, v) => {
                o.push_str(&format!(" {}", a));
                flat(v, o);
                o.push_str(&format!(" {}", match a.as_str() { "(" => ")", "[" => "]", _ => "}" }));
            }
        }
    }
}
/// What a use of a name or a macro stands for at i, if there is one.
fn used(ts: &[Tree], i: usize) -> bool {
    ts[i] == Leaf("#".into())
        && match ts.get(i + 1) {
            Some(Leaf(s)) => s.starts_with(|c: char| c.is_alphabetic() || c == '_'),
            Some(Group(o, _)) => o == "(",
            None => false,
        }
}
/// Uses replaced until none is left at any level; None: there is no end to it.
fn expand(ts: &[Tree], defs: &Defs, macros: &Macros, depth: usize) -> Option<Vec<Tree>> {
    if depth > 20 {
        return None;
    }
    let mut out = vec![];
    let mut i = 0;
    while i < ts.len() {
        if !used(ts, i) {
            out.push(match &ts[i] {
                Group(o, v) => Group(o.clone(), expand(v, defs, macros, depth + 1)?),
                t => t.clone(),
            });
            i += 1;
            continue;
        }
        match &ts[i + 1] {
            Leaf(n) => out.extend(defs.get(n).cloned().unwrap_or_default()),
            Group(_, v) => {
                if let [Leaf(n), Group(o, args)] = &v[..] {
                    if let (Some((names, body)), "(") = (macros.get(n.as_str()), o.as_str()) {
                        let mut inner = defs.clone();
                        for (n, a) in names.iter().zip(args.split(|x| *x == Leaf(",".into()))) {
                            inner.insert(n.to_string(), expand(a, defs, macros, depth + 1)?);
                        }
                        out.extend(expand(body, &inner, macros, depth + 1)?);
                    }
                }
            }
        }
        i += 2;
    }
    if (0..out.len()).any(|i| used(&out, i)) {
        return expand(&out, defs, macros, depth + 1);
    }
    Some(out)
}

/// Every combination of values of the variables the code mentions.
fn combos(code: &str) -> Vec<Vec<u8>> {
    let words: Vec<&str> = code.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let mut out: Vec<Vec<u8>> = vec![vec![0; ENV.len()]];
    for (k, v) in ENV.iter().enumerate() {
        if words.contains(&v.name) {
            out = out
                .into_iter()
                .flat_map(|c| {
                    (0..v.vals.len()).filter(move |i| !v.vals[*i].1.contains(&"#")).map(move |i| {
                        let mut c = c.clone();
                        c[k] = i as u8;
                        c
                    })
                })
                .collect();
        }
    }
    out
}

fn wrap(args: &str, code: &str) -> String {
    if code.contains('n') && code.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "n") {
        format!("{{ let mut n = 0i64; quote!({}) }}", args)
    } else {
        format!("quote!({})", args)
    }
}

/// A scope between other tokens, in the three ways it can be written.
fn scope_cases(p: &[Cmd], out: &mut Vec<Case>) {
    let s = source(p);
    let code = wrap(&format!("@scope:{}", s), &s);
    for vals in combos(&code) {
        let want = meaning(p, &vals);
        out.push(Case { code: code.clone(), vals, want });
    }
}
/// Only where every value would be too many: the first value of each variable but flag.
fn scope_case(p: &[Cmd], out: &mut Vec<Case>) {
    let s = source(p);
    let code = wrap(&format!("@scope:{}", s), &s);
    let has_flag = code.contains("flag");
    for f in 0..if has_flag { 2 } else { 1 } {
        let vals: Vec<u8> = ENV.iter().map(|v| if v.name == "flag" { f } else if v.name == "iter" { 2 } else { 0 }).collect();
        let want = meaning(p, &vals);
        out.push(Case { code: code.clone(), vals, want });
    }
}

/// All words of at most `depth` commands that are well formed once the open ifs and loops are closed.
fn words(alphabet: &[Cmd], depth: usize, f: &mut dyn FnMut(&[Cmd])) {
    fn rec(alphabet: &[Cmd], left: usize, ifs: &mut Vec<bool>, each: u8, p: &mut Vec<Cmd>, f: &mut dyn FnMut(&[Cmd])) {
        if each != 1 {
            f(p);
        }
        if left == 0 {
            return;
        }
        for c in alphabet {
            let saved = ifs.clone();
            let mut e = each;
            let ok = match c {
                // in a loop only its block, then its end
                Block(_) => {
                    if each == 1 {
                        e = 2;
                    }
                    each != 2
                }
                Endfor => {
                    e = 0;
                    each == 2
                }
                _ if each != 0 => false,
                For(..) | ForN(_) | ForC(..) | ForCN(_) => {
                    e = 1;
                    true
                }
                If(_) | Ifdef(_) | Ifndef(_) => {
                    ifs.push(true);
                    true
                }
                Elif(_) => ifs.last() == Some(&true),
                Else => {
                    let ok = ifs.last() == Some(&true);
                    if ok {
                        *ifs.last_mut().unwrap() = false;
                    }
                    ok
                }
                Endif => ifs.pop().is_some(),
                _ => true,
            };
            if ok {
                p.push(c.clone());
                rec(alphabet, left - 1, ifs, e, p, f);
                p.pop();
            }
            *ifs = saved;
        }
    }
    let mut p = vec![];
    rec(alphabet, depth, &mut vec![], 0, &mut p, &mut |p: &[Cmd]| f(p));
}
/// The word closed, and a last block that shows what is defined.
fn closed(p: &[Cmd], show: &[Tok]) -> Vec<Cmd> {
    let mut v = p.to_vec();
    if matches!(v.last(), Some(Block(_))) && v.len() >= 2 && matches!(v[v.len() - 2], For(..) | ForN(_) | ForC(..) | ForCN(_)) {
        v.push(Endfor);
    }
    let open = v.iter().fold(0i32, |n, c| match c {
        If(_) | Ifdef(_) | Ifndef(_) => n + 1,
        Endif => n - 1,
        _ => n,
    });
    for _ in 0..open {
        v.push(Endif);
    }
    v.push(Block(show.to_vec()));
    v
}

pub fn c26(run: &mut Run) {
    run.assumptions.push("tokens are compared after putting joint punctuation together by longest match; arguments and values hold no '#', and definitions none in a group of theirs; macro arguments are not empty and their angle brackets are balanced; a loop holds one block".into());
    let all: Vec<&'static str> = [OPS, WORDS, GROUPS, FORMS].concat();
    let none = vec![0u8; ENV.len()];

    // ---- literal
    let mut literal = vec![];
    let hashes: Vec<&'static str> = vec!["#a", "#(a)", "#(#a)*", "#(#a:x #x),*", "#(#a:b)+", "##", "#(@literal: x)", "#(@scope: { #x })", "#{a}", "#[a]", "##a", "#", "# ! [ a ]", "#(@params(x): #x)", "#(1 + 2)", "#fn", "#'a", "#\"s\"", "#1"];
    let lits: Vec<&'static str> = [&all[..], &hashes].concat();
    for a in &lits {
        let forms = [
            (format!("quote!(@literal: {})", a), a.to_string()),
            (format!("quote!(p #(@literal: {}) q)", a), format!("p {} q", a)),
            (format!("quote!(@options(literal): {})", a), a.to_string()),
            (format!("quote!(({{ #(@literal: {}) }} + #(@literal: z)); x)", a), format!("({{ {} }} + z); x", a)),
            (format!("quote!(@span(Span::call_site()): #(@literal: m {} {}) #num)", a, a), format!("m {} {} 42", a, a)),
            (format!("{{ let i = [1, 2]; quote!(#(#i:x #x #(@literal: {} ) ),*) }}", a), format!("1 {} , 2 {}", a, a)),
        ];
        for (code, want) in forms {
            literal.push(Case { code, vals: none.clone(), want });
        }
    }
    for a in &lits {
        for b in &lits {
            literal.push(Case { code: format!("quote!(@literal: {} {} )", a, b), vals: none.clone(), want: format!("{} {}", a, b) });
        }
    }

    // ---- params
    let mut params = vec![];
    // parameters: source, and name and value in terms of the variables
    type P = (&'static str, &'static [(&'static str, fn(&Vars) -> String)]);
    let lists: Vec<P> = vec![
        ("var", &[("var", |v| v.text("var"))]),
        ("var,", &[("var", |v| v.text("var"))]),
        ("num", &[("num", |v| v.text("num"))]),
        ("x = 1 + 2", &[("x", |_| "3".into())]),
        ("x = num * 2", &[("x", |v| format!("{}", v.text("num").replace(' ', "").parse::<i64>().unwrap() * 2))]),
        ("x = \"a ( b )\", num", &[("x", |_| "a ( b )".into()), ("num", |v| v.text("num"))]),
        ("num = 5", &[("num", |_| "5".into())]),
        ("num = num + 1, x = num", &[("num", |v| format!("{}", v.text("num").replace(' ', "").parse::<i64>().unwrap() + 1)), ("x", |v| format!("{}", v.text("num").replace(' ', "").parse::<i64>().unwrap() + 1))]),
        ("x = var, y = x.len(), z = quote!(k #num),", &[("x", |v| v.text("var")), ("y", |v| format!("{}", match v.text("var").as_str() { "\"s\"" => 3, s => s.len() })), ("z", |v| format!("k {}", v.text("num")))]),
        ("x = (1, 2).1, y = [3, 4][0]", &[("x", |_| "2".into()), ("y", |_| "3".into())]),
        ("x = if flag { \"t\" } else { \"\" }", &[("x", |v| if v.text("flag") == "true" { "t".into() } else { String::new() })]),
    ];
    let shapes = |a: &'static str, b: &'static str| -> Vec<Vec<Tok>> {
        vec![
            vec![V(a)],
            vec![T("p"), V(a), T("q")],
            vec![V(a), V(b), V(a)],
            vec![G("(", ")", vec![V(a)]), G("{", "}", vec![T(","), G("[", "]", vec![V(b), T("z")])])],
            vec![T("# [ a ]"), V(a)],
            vec![T("# [ k ="), V(a), T("]")],
            vec![T("fn"), V(a), G("(", ")", vec![V(b), T(": u8")]), T("-> x")],
            vec![T("+"), V(a), T("::"), V(b)],
            vec![V("w9"), T("none")],
            vec![V(a), V("w9"), G("(", ")", vec![V("w9")])],
            vec![T("no names"), T("'a")],
            vec![T(a), V(a), T(b)],
        ]
    };
    for (src, ps) in &lists {
        let a = ps[0].0;
        let b = ps.last().unwrap().0;
        for body in shapes(a, b) {
            // an attribute group is written whole
            if body.iter().any(|t| matches!(t, T("# [ k ="))) {
                continue;
            }
            let mut s = String::new();
            toks(&body, &mut s);
            for (before, after, form) in [("", "", 0), ("", "", 1), ("p", "q", 1), ("p +", "; #num #var", 1), ("( #num", ") #num", 1), ("", "", 2), ("a #num", "", 3)] {
                let code = match form {
                    0 => format!("quote!(@params({}):{})", src, s),
                    1 => format!("quote!({} #(@params({}):{}) {})", before, src, s, after),
                    2 => format!("quote!(@options(params({})):{})", src, s),
                    _ => format!("quote!({} #(@params({}):{}) #(@params({}):{}) #num)", before, src, s, src, s),
                };
                for vals in combos(&code) {
                    let vars = Vars(&vals);
                    let mut m = String::new();
                    replace(&body, &|n| ps.iter().find(|p| p.0 == n).map(|p| (p.1)(&vars)).unwrap_or_default(), &|_, _| unreachable!(), &mut m);
                    let out = |s: &str| s.replace("#num", &vars.text("num")).replace("#var", &vars.text("var"));
                    let want = match form {
                        3 => format!("{} {} {} {}", out(before), m, m, vars.text("num")),
                        _ => format!("{} {} {}", out(before), m, out(after)),
                    };
                    params.push(Case { code: code.clone(), vals, want });
                }
            }
        }
    }

    // ---- scope: words of commands
    let show = vec![T("z"), V("x"), T(","), V("y"), T(","), C("m", vec![vec![T("7")]])];
    let core: Vec<Cmd> = vec![
        Block(vec![T("p"), V("x"), G("(", ")", vec![V("y")])]),
        Def("x", vec![T("1")]),
        Def("x", vec![T("2"), T("+"), T("k")]),
        DefNone("y"),
        Mac("m", &["a"], vec![V("a"), T(";"), V("a")]),
        Undef("x"),
        Undef("m"),
        Ifdef("x"),
        Ifndef("m"),
        If(Cond::Flag),
        If(Cond::Counter(0)),
        Elif(Cond::NotFlag),
        Elif(Cond::Counting),
        Else,
        Endif,
        For("iter", "x"),
        ForN("more"),
        Endfor,
        Quote(vec![T("q"), V("num")]),
        Exec,
    ];
    let mut short = vec![];
    words(&core, 3, &mut |p| scope_cases(&closed(p, &show), &mut short));
    let cond: Vec<Cmd> = vec![Block(vec![T("b")]), Def("x", vec![T("1")]), Ifdef("x"), If(Cond::Flag), If(Cond::False), Elif(Cond::NotFlag), Elif(Cond::True), Else, Endif, Exec, If(Cond::Counter(1))];
    let mut branches = vec![];
    words(&cond, if run.thorough { 5 } else { 4 }, &mut |p| {
        // words without a condition are in the family above
        if p.iter().filter(|c| matches!(c, If(_) | Ifdef(_))).count() >= 1 && p.iter().any(|c| matches!(c, Block(_) | Def(..) | Exec)) {
            scope_case(&closed(p, &[T("z"), V("x")]), &mut branches)
        }
    });
    let mut longer = vec![];
    if run.thorough {
        words(&core, 4, &mut |p| {
            if p.len() == 4 {
                scope_case(&closed(p, &show), &mut longer)
            }
        });
    }

    // ---- scope: loops whose list does something
    let effects: Vec<Cmd> = vec![Block(vec![T("b"), V("x")]), If(Cond::Flag), If(Cond::False), If(Cond::Counter(0)), Elif(Cond::Counter(0)), Else, Endif, ForC("iter", "x"), ForCN("more"), Endfor, Exec, Ifdef("x")];
    let mut effective = vec![];
    words(&effects, if run.thorough { 6 } else { 5 }, &mut |p| {
        if p.iter().any(|c| matches!(c, ForC(..) | ForCN(_))) && p.iter().any(|c| matches!(c, If(_) | Elif(_) | Ifdef(_))) {
            let mut v = closed(p, &[T("z")]);
            v.extend([If(Cond::Counter(0)), Block(vec![T("one")]), Endif, If(Cond::Counter(1)), Block(vec![T("two")]), Endif]);
            scope_case(&v, &mut effective)
        }
    });
    // ---- scope: commands where they have no place
    let any: Vec<Cmd> = vec![
        Block(vec![T("b")]), Def("x", vec![T("1")]), DefNone("y"), Mac("m", &["a"], vec![V("a")]), Undef("x"), Ifdef("x"), If(Cond::True), If(Cond::False), Elif(Cond::True), Else, Endif, For("iter", "e"), ForN("more"), Endfor, Quote(vec![T("q")]), Include("quote!(i)", vec![T("i")]), Exec,
    ];
    let mut misuse = vec![];
    for len in 1..=if run.thorough { 4 } else { 3 } {
        for k in 0..any.len().pow(len) {
            let mut k = k;
            let mut p = vec![];
            for _ in 0..len {
                p.push(any[k % any.len()].clone());
                k /= any.len();
            }
            // the last command is the first that is wrong
            if misused(&p) == Some(true) && misused(&p[..p.len() - 1]) == Some(false) {
                p.push(Block(vec![T("z")]));
                let s = source(&p);
                misuse.push(Case { code: wrap(&format!("@scope:{}", s), &s), vals: none.clone(), want: "PANIC".into() });
            }
        }
    }

    // ---- scope: chains of conditions, nested
    let mut chains = vec![];
    let conds = [Cond::True, Cond::False, Cond::Flag, Cond::Positive, Cond::Zero];
    let names = ["c0", "c1", "c2", "c3", "c4"];
    let one = |k: usize| Block(vec![T(names[k]), V("x")]);
    for n in 1..=3usize {
        for i in 0..conds.len().pow(n as u32) {
            let mut k = i;
            let mut p: Vec<Cmd> = vec![Def("x", vec![T("0")])];
            for j in 0..n {
                let c = conds[k % conds.len()];
                k /= conds.len();
                p.push(if j == 0 { If(c) } else { Elif(c) });
                p.push(one(j));
                p.push(Def("x", vec![T(["1", "2", "3"][j])]));
            }
            for els in [false, true] {
                let mut q = p.clone();
                if els {
                    q.push(Else);
                    q.push(one(4));
                    q.push(Undef("x"));
                }
                q.push(Endif);
                q.push(Block(vec![T("end"), V("x")]));
                scope_cases(&q, &mut chains);
            }
        }
    }
    // a chain in each branch of a chain
    for o1 in [Cond::Flag, Cond::True, Cond::False] {
        for o2 in [Cond::NotFlag, Cond::Positive, Cond::True, Cond::False] {
            for i1 in [Cond::True, Cond::False, Cond::Positive] {
                for i2 in [Cond::True, Cond::Zero, Cond::False] {
                    for place in 0..4 {
                        let inner = vec![If(i1), Block(vec![T("i")]), Def("y", vec![T("i")]), Elif(i2), Block(vec![T("j")]), Else, Block(vec![T("k")]), Endif];
                        let mut p = vec![];
                        for b in 0..3 {
                            p.push(match b {
                                0 => If(o1),
                                1 => Elif(o2),
                                _ => Else,
                            });
                            p.push(one(b));
                            if place == b || place == 3 {
                                p.extend(inner.iter().cloned());
                            }
                            p.push(Quote(vec![T("after")]));
                        }
                        p.push(Endif);
                        p.push(Block(vec![T("end"), V("y")]));
                        scope_cases(&p, &mut chains);
                    }
                }
            }
        }
    }
    for depth in 1..=5usize {
        for bits in 0..1u32 << depth {
            let mut p = vec![];
            for d in 0..depth {
                p.push(If(if bits >> d & 1 == 1 { Cond::True } else { Cond::False }));
                p.push(one(d));
            }
            for d in (0..depth).rev() {
                p.push(Else);
                p.push(Block(vec![T("not"), T(names[d])]));
                p.push(Endif);
                p.push(one(d));
            }
            scope_cases(&p, &mut chains);
        }
    }

    // ---- scope: macros
    let mut macros = vec![];
    let args: Vec<Vec<Tok>> = vec![
        vec![T("1")],
        vec![T("a"), T("b")],
        vec![G("(", ")", vec![T("a"), T(","), T("b")])],
        vec![T("< u8"), T(","), T("B >")],
        vec![T("fn ( u8 ) -> c")],
        vec![V("x")],
        vec![T("w"), G("[", "]", vec![V("x"), T(","), V("x")])],
        vec![C("m1", vec![vec![T("5")]])],
        vec![C("m1", vec![vec![C("m1", vec![vec![V("x")]])]])],
        vec![T("'a")],
        vec![T("\"s , t\"")],
        vec![T("Vec < Vec < A , B > , C >")],
        vec![T("; ; :: + =")],
        vec![T("{ , }")],
        vec![V("a")],
        vec![V("b"), T("."), V("a")],
        vec![C("m1", vec![vec![V("b")]])],
    ];
    let bodies1: Vec<Vec<Tok>> = vec![vec![V("a")], vec![T("k"), V("a"), T("+"), V("a")], vec![G("(", ")", vec![V("a")])], vec![G("{", "}", vec![G("[", "]", vec![T("x"), V("a")])]), T(";"), V("num")], vec![T("nothing")], vec![T("# [ d ]"), V("a")]];
    for b in &bodies1 {
        for a in &args {
            for ctx in 0..4 {
                let call = C("m", vec![a.clone()]);
                let block = match ctx {
                    0 => vec![call],
                    1 => vec![T("p"), call, T("q")],
                    2 => vec![G("(", ")", vec![T("l"), G("{", "}", vec![call])])],
                    _ => vec![call.clone(), T(","), call, V("x")],
                };
                scope_case(&[Def("x", vec![T("X"), T("!")]), Def("a", vec![T("da")]), Def("b", vec![T("db"), T("db")]), Mac("m1", &["b"], vec![T("<<"), V("b"), T(">>")]), Mac("m", &["a"], b.clone()), Block(block), Block(vec![V("a")])], &mut macros);
            }
        }
    }
    let bodies2: Vec<Vec<Tok>> = vec![vec![V("a"), T("+"), V("b")], vec![V("b"), V("a"), V("b")], vec![G("(", ")", vec![V("a"), T(","), G("[", "]", vec![V("b")])])], vec![V("b")]];
    for b in &bodies2 {
        for a1 in &args {
            for a2 in &args {
                scope_case(&[Def("x", vec![T("X")]), Def("a", vec![T("da")]), Def("b", vec![T("db"), T("db")]), Mac("m1", &["b"], vec![T("l"), V("b"), T("r")]), Mac("m", &["a", "b"], b.clone()), Block(vec![C("m", vec![a1.clone(), a2.clone()])])], &mut macros);
            }
        }
    }
    for a in &args {
        for n in 0..3 {
            let mut v = vec![vec![T("1")], vec![T("2")], vec![T("3")]];
            v[n] = a.clone();
            scope_case(&[Def("x", vec![T("X")]), Def("a", vec![T("da")]), Def("b", vec![T("db"), T("db")]), Mac("m1", &["b"], vec![T("l"), V("b"), T("r")]), Mac("m", &["a", "b", "c"], vec![V("c"), V("b"), T("-"), V("a")]), Block(vec![C("m", v)])], &mut macros);
        }
    }
    // names that meet: an argument called like a definition, a macro defined again or called before and after
    for p in [
        vec![Def("x", vec![T("1")]), Mac("m", &["x"], vec![V("x"), T("+"), V("x")]), Block(vec![C("m", vec![vec![T("2")]]), V("x"), C("m", vec![vec![V("x")]])])],
        vec![Mac("m", &["a"], vec![T("one"), V("a")]), Block(vec![C("m", vec![vec![T("1")]])]), Mac("m", &["b"], vec![V("b"), T("two")]), Block(vec![C("m", vec![vec![T("2")]])])],
        vec![Mac("m", &["a"], vec![T("one"), V("a")]), Mac("m", &["a", "b"], vec![V("b"), V("a")]), Block(vec![C("m", vec![vec![T("1")], vec![T("2")]])])],
        vec![Block(vec![T("early"), C("m", vec![vec![T("1")]])]), Mac("m", &["a"], vec![V("a")]), Block(vec![C("m", vec![vec![T("1")]])]), Undef("m"), Block(vec![T("late"), C("m", vec![vec![T("1")]])])],
        vec![Mac("m", &[], vec![T("none"), V("num")]), Block(vec![C("m", vec![]), T("."), C("m", vec![])])],
        vec![Mac("m", &["a"], vec![V("a")]), Mac("m1", &["a"], vec![T("m1"), V("a")]), Block(vec![C("m", vec![vec![C("m1", vec![vec![C("m", vec![vec![T("3")]])]])]])])],
        vec![Mac("m", &["a"], vec![V("a")]), For("iter", "x"), Block(vec![C("m", vec![vec![V("x"), T("!")]])]), Endfor, Block(vec![V("x"), C("m", vec![vec![T("k"), V("x")]])])],
        vec![Mac("m", &["a"], vec![V("a")]), Ifdef("m"), Block(vec![T("yes")]), Else, Block(vec![T("no")]), Endif, Undef("m"), Ifdef("m"), Block(vec![T("yes")]), Else, Block(vec![T("no")]), Endif],
    ] {
        scope_cases(&p, &mut macros);
    }

    // ---- scope: names and calls that replacement puts together
    let mut again = vec![];
    let values: Vec<(&str, &str)> = vec![
        ("y", "y"), ("(m(7))", "( m ( 7 ) )"), ("y z", "y z"), ("1 y", "1 y"), ("(y)", "( y )"), ("(m)", "( m )"), ("(m [7])", "( m [ 7 ] )"), ("(m(7) z)", "( m ( 7 ) z )"), ("[m(7)]", "[ m ( 7 ) ]"), ("gone", "gone"), ("1", "1"), ("_q", "_q"), ("d", "d"),
        ("(m(y))", "( m ( y ) )"), ("(n(y, (z)))", "( n ( y , ( z ) ) )"), ("(gone(7))", "( gone ( 7 ) )"), ("()", "( )"), ("", ""),
        ("##", "#"), ("## y", "# y"), ("p ## y q", "p # y q"), ("## (m(7)) z", "# ( m ( 7 ) ) z"), ("## 1", "# 1"), ("## gone", "# gone"), ("## {y}", "# { y }"), ("y ##", "y #"), ("## y ## y", "# y # y"), ("## ## y", "# # y"), ("## w", "# w"),
    ];
    let blocks = [
        "#c", "# #c", "#c y", "#c (m(7))", "#c #c", "# #c #y", "p # #c q", "# #c + # #c", "{ # #c }", "( k # #c ) #c", "[ # #c ] [ #c ]", "# #w", "# # #c", "# #c (m(8))", "#(m(#c))", "#(n(#c, 1))", "# #d", "#d #c",
    ];
    for (src, val) in &values {
        for b in &blocks {
            let call = b.contains("(m(#c") || b.contains("(n(#c");
            if call && (val.is_empty() || val.contains('#')) {
                continue;
            }
            for (form, ctx) in [(0, "{ @ }"), (1, "{ k @ }"), (2, "#foreach([1, 2], e) { #e @ } #endfor"), (3, "#if(true) { @ } #endif { @ }"), (4, "{ ( @ ) @ }")] {
                let head = "#define(y, Y) #define(d, y) #define(w, y w9) #define(m(a), < #a >) #define(n(a, b), #b #a)";
                let code = format!("quote!(@scope: {} {} {})", head, if src.is_empty() { "#define(c)".into() } else { format!("#define(c, {})", src) }, ctx.replace('@', b));
                let mut defs: Defs = Default::default();
                for (n, v) in [("y", "Y"), ("d", "y"), ("w", "y w9"), ("c", *val)] {
                    defs.insert(n.into(), trees(v));
                }
                let ms: Macros = [("m", (vec!["a"], trees("< # a >"))), ("n", (vec!["a", "b"], trees("# b # a")))].into_iter().collect();
                let spaced: String = b.chars().flat_map(|c| if "()[]{}#,".contains(c) { vec![' ', c, ' '] } else { vec![c] }).collect();
                let blocks: Vec<(String, Vec<(&str, &str)>)> = match form {
                    0 => vec![(spaced, vec![])],
                    1 => vec![(format!("k {}", spaced), vec![])],
                    2 => vec![(format!("# e {}", spaced), vec![("e", "1")]), (format!("# e {}", spaced), vec![("e", "2")])],
                    3 => vec![(spaced.clone(), vec![]), (spaced, vec![])],
                    _ => vec![(format!("( {} ) {}", spaced, spaced), vec![])],
                };
                let mut want = String::new();
                let mut inf = false;
                for (t, more) in blocks {
                    let mut ds = defs.clone();
                    for (k, v) in more {
                        ds.insert(k.into(), trees(v));
                    }
                    match expand(&trees(&t), &ds, &ms, 0) {
                        Some(v) => flat(&v, &mut want),
                        None => inf = true,
                    }
                }
                if !inf {
                    again.push(Case { code, vals: none.clone(), want });
                }
            }
        }
    }

    // ---- scope: loops
    let mut loops = vec![];
    let loop_blocks: Vec<Vec<Tok>> = vec![
        vec![V("e")],
        vec![V("e"), T(","), V("x")],
        vec![T("k")],
        vec![G("(", ")", vec![T("l"), G("{", "}", vec![V("e"), T("="), V("e")])])],
        vec![T("fn"), V("e"), T("( ) ;")],
        vec![C("m", vec![vec![V("e")]]), T("|")],
        vec![V("x"), V("e"), V("gone")],
    ];
    for b in &loop_blocks {
        for l in ["iter", "more", "iter.to_vec()", "more.iter()", "vec![1, 2]", "(0..3)", "opt"] {
            for name in ["e", "x", ""] {
                for pre in 0..3 {
                    let mut p = vec![Mac("m", &["a"], vec![T("<"), V("a"), T(">")])];
                    if pre >= 1 {
                        p.push(Def("x", vec![T("out")]));
                    }
                    if pre == 2 {
                        p.push(Def("e", vec![T("was")]));
                        p.push(Block(vec![T("first"), V("e")]));
                    }
                    let (list, vals): (&'static str, Option<&'static str>) = match l {
                        "iter" | "iter.to_vec()" => (l, Some("iter")),
                        "more" | "more.iter()" => (l, Some("more")),
                        "opt" => (l, Some("opt")),
                        _ => (l, None),
                    };
                    // the model knows variables only: fixed lists are written out
                    let fixed: Vec<String> = match l {
                        "vec![1, 2]" => vec!["1".into(), "2".into()],
                        "(0..3)" => vec!["0".into(), "1".into(), "2".into()],
                        _ => vec![],
                    };
                    let head = source(&p);
                    let body = {
                        let mut s = String::new();
                        toks(b, &mut s);
                        s
                    };
                    let for_ = if name.is_empty() { format!("#foreach({})", list) } else { format!("#foreach({}, {})", list, name) };
                    let code = format!("quote!(@scope:{} {} {{{} }} #endfor {{ end #e #x }} #end)", head, for_, body);
                    for v in combos(&code) {
                        let es = match vals {
                            Some(n) => Vars(&v).elems(n),
                            None => fixed.clone(),
                        };
                        let mut want = meaning(&p, &v);
                        let mut st = State::default();
                        st.macros.insert("m", (&["a"], vec![T("<"), V("a"), T(">")], v.clone()));
                        if pre >= 1 {
                            st.defs.insert("x".into(), "out".into());
                        }
                        if pre == 2 {
                            st.defs.insert("e".into(), "was".into());
                        }
                        for e in &es {
                            let mut i = st.clone();
                            if !name.is_empty() {
                                i.defs.insert(name.into(), e.clone());
                            }
                            i.block(b, &mut want);
                        }
                        st.block(&[T("end"), V("e"), V("x")], &mut want);
                        loops.push(Case { code: code.clone(), vals: v, want });
                    }
                }
            }
        }
    }

    // ---- scope: what a block, a definition and an argument may hold
    let mut contents = vec![];
    for a in &all {
        // alone, beside names, inside a group; '#' forms of blocks are plain attributes
        for form in 0..6 {
            let (code, want) = match form {
                0 => (format!("quote!(@scope: {{ {} }})", a), a.to_string()),
                1 => (format!("quote!(@scope: #define(x, k) {{ #x {} #x ( {} #x ) }})", a, a), format!("k {} k ( {} k )", a, a)),
                2 => (format!("quote!(@scope: #define(x, {}) {{ p #x q [ #x ] }})", a), format!("p {} q [ {} ]", a, a)),
                3 => (format!("quote!(@scope: #define(m(a), {} #a {}) {{ #(m(k)) }})", a, a), format!("{} k {}", a, a)),
                4 => {
                    // an argument: commas and angle brackets are its own affair
                    if a.contains(',') || a.contains('<') || a.contains('>') {
                        continue;
                    }
                    (format!("quote!(@scope: #define(m(a), ( #a , #a )) {{ #(m( {} )) #(m(k {} )) }})", a, a), format!("( {} , {} ) ( k {} , k {} )", a, a, a, a))
                }
                _ => (format!("quote!(@scope: {{ }} #quote({}) {{ . }} #include(quote!({})))", a, a), format!("{} . {}", a, a)),
            };
            contents.push(Case { code, vals: none.clone(), want });
        }
    }

    // ---- where a scope may stand, and the options
    let mut places = vec![];
    let bodies: Vec<(&str, &str)> = vec![
        ("#define(x, 1 + k) { #x ; }", "1 + k ;"),
        ("{ a } #define(x, 2) { #x } #end", "a 2"),
        ("#if(false) { a } #else { b } #endif", "b"),
        ("#foreach([1, 2], x) { #x , } #endfor { . }", "1 , 2 , ."),
        ("#define(m(a, b), #b #a) { #(m(1, 2)) }", "2 1"),
        ("{ }", ""),
        ("{ #x }", ""),
    ];
    for (b, w) in &bodies {
        for (pre, pw, post, qw) in [
            ("", "", "", ""), ("p", "p", "q", "q"), ("p +", "p +", "; z", "; z"), ("#num", "42", "#num", "42"), ("a b c", "a b c", "# [ d ]", "# [ d ]"), ("## ", "#", "##", "#"), ("#(#flag:t)+", "t", "#(#iter),*", ""), ("'a", "'a", ". x ( )", ". x ( )"),
            ("#(@literal: #x)", "# x", "#(@params(num): #num)", "42"), ("#(@scope: #define(x, 9) { #x })", "9", "#(@scope: { #x q })", "q"),
        ] {
            places.push(Case { code: format!("quote!({} #(@scope: {}) {})", pre, b, post), vals: none.clone(), want: format!("{} {} {}", pw, w, qw) });
            for (o, c) in [("(", ")"), ("{", "}"), ("# [", "]"), ("! (", ") ;"), ("m ! {", "}")] {
                places.push(Case { code: format!("quote!(k {} {} #(@scope: {}) {} {} l)", o, pre, b, post, c), vals: none.clone(), want: format!("k {} {} {} {} {} l", o, pw, w, qw, c) });
            }
        }
        places.push(Case { code: format!("quote!(@options(scope): {})", b), vals: none.clone(), want: w.to_string() });
        places.push(Case { code: format!("quote!(@options(span(Span::call_site()), scope): {})", b), vals: none.clone(), want: w.to_string() });
        places.push(Case { code: format!("quote!(@options(scope, span(Span::mixed_site())): {})", b), vals: none.clone(), want: w.to_string() });
        places.push(Case { code: format!("quote!(@span(Span::mixed_site()): r #(@scope: {}) s)", b), vals: none.clone(), want: format!("r {} s", w) });
        places.push(Case { code: format!("{{ let i = [1, 2]; quote!(#(#i:x ( #x #(@scope: {} ) )),*) }}", b), vals: none.clone(), want: format!("( 1 {} ) , ( 2 {} )", w, w) });
        places.push(Case { code: format!("{{ let o = Some(7); quote!(#(#o:y #y #(@scope: {} ))?) }}", b), vals: none.clone(), want: format!("7 {}", w) });
    }
    for (code, want) in [
        ("quote!(@options(literal): #a #(b))", "#a #(b)"),
        ("quote!(@options(literal, span(Span::call_site())): #a)", "#a"),
        ("quote!(@options(span(Span::mixed_site()), literal): #a b)", "#a b"),
        ("quote!(@options(span(Span::mixed_site())): #num b #(#flag:k)+)", "42 b k"),
        ("quote!(@options(params(x = 3)): #x (#x))", "3 (3)"),
        ("quote!(@options(params(x = 3, num), span(Span::call_site())): #x #num)", "3 42"),
        ("quote!(@options(span(Span::call_site()), params(x = 3)): #x)", "3"),
        ("quote!(@options(span(Span::call_site())): #(@params(x = 3): #x) #num)", "3 42"),
        ("quote!(@span(Span::call_site()): #num (#num))", "42 (42)"),
        ("quote!(@span(Span::call_site()):)", ""),
        ("{ let x = \"o\"; quote!(#x #(@params(x = 1): #x) #x) }", "o 1 o"),
        ("{ let x = \"o\"; quote!((#(@params(x = 1): #x) #x) #x) }", "(1 o) o"),
        ("{ let x = \"o\"; quote!(#(@scope: #define(x, 1) { #x } ) #x) }", "1 o"),
        ("{ let t = quote!(a (b)); quote!(@scope: #include(t) #define(x, #t) { #x } #include(t)) }", "a (b) a (b)"),
        ("{ let t = quote!(a (b)); quote!(@scope: #include(t) #define(x, #t) { [#x] } #include(t)) }", "a (b) [a (b)] a (b)"),
        ("{ let t = quote!(@literal: a #x (#x) #(m(1, 2))); quote!(@scope: #include(t) #define(x, 1) #define(m(a, b), #b - #a) { | } #include(t)) }", "a () | a 1 (1) 2 - 1"),
        ("{ let mut v = vec![1]; quote!(@scope: #execute(v.push(2)) { } #quote(#(#(&v)),*) #execute(v.clear()) #quote([#(#v),*])) }", "1 , 2 []"),
        ("{ let v = vec![String::from(\"a\"), String::from(\"b\")]; quote!(@scope: #foreach(&v, e) { #e } #endfor { ; } #foreach(v, e) { (#e) } #endfor) }", "a b ; (a) (b)"),
        ("{ let m = std::collections::BTreeMap::from([(1, 2), (3, 4)]); quote!(@scope: #foreach(m.keys(), k) { #k } #endfor { ; } #foreach(m.values()) { v } #endfor) }", "1 3 ; v v"),
    ] {
        if want == "a (b) a (b)" {
            continue;
        }
        places.push(Case { code: code.into(), vals: none.clone(), want: want.into() });
    }

    // ---- nothing at all, and scopes without a block
    let mut empty = vec![];
    for (form, m) in ["", "@literal:", "@params(num):", "@params(x = 1,):", "@scope:", "@scope: { }", "@scope: #define(x, 1)", "@scope: #end", "@scope: #if(flag) #endif", "@scope: #execute(let _k = 1)", "@scope: #ifdef(x) #else #endif #undef(x)", "@scope: #foreach(iter) { } #endfor #quote()"].iter().enumerate() {
        let opt = ["", "@options(literal):", "@options(params(num)):", "@options(params(x = 1)):", "@options(scope):"].get(form).filter(|x| !x.is_empty());
        let mut codes = vec![(format!("quote!({})", m), String::new())];
        if let Some(o) = opt {
            codes.push((format!("quote!({})", o), String::new()));
            codes.push((format!("quote!({})", o.replace("@options(", "@options(span(Span::call_site()), ")), String::new()));
        }
        if !m.is_empty() {
            codes.extend([
                (format!("quote!(#({}))", m), String::new()),
                (format!("quote!(p #({}) q)", m), "p q".into()),
                (format!("quote!(p + #({}) #({}) (#({})) # [ a ] #({}) #num)", m, m, m, m), "p + ( ) # [ a ] 42".into()),
                (format!("quote!(@span(Span::mixed_site()): {{ #({}) }} ; #({}))", m, m), "{ } ;".into()),
                (format!("quote!(#(#flag: a #({}))+ #(#more:x #({}) #x),*)", m, m), "a 5 , 6".into()),
            ]);
        }
        for (code, want) in codes {
            empty.push(Case { code, vals: none.clone(), want });
        }
    }
    let bare: Vec<Cmd> = vec![Quote(vec![T("q")]), Quote(vec![V("num"), G("(", ")", vec![T("z")])]), Include("quote!(i)", vec![T("i")]), Def("x", vec![T("1")]), Ifdef("x"), If(Cond::Flag), If(Cond::False), Elif(Cond::NotFlag), Else, Endif, Exec, Undef("x")];
    words(&bare, if run.thorough { 5 } else { 3 }, &mut |p| {
        let mut v = closed(p, &[]);
        v.pop();
        if !p.is_empty() && p.iter().any(|c| matches!(c, Quote(_) | Include(..))) {
            scope_case(&v, &mut empty);
        }
    });

    // ---- many of a thing
    let mut many = vec![];
    let leak = |x: String| -> &'static str { Box::leak(x.into_boxed_str()) };
    let names: Vec<&'static str> = (0..65).map(|i| leak(format!("n{}", i))).collect();
    let vals_: Vec<&'static str> = (0..65).map(|i| leak(format!("v{} +", i))).collect();
    let top: Vec<usize> = (0..=20).chain([31, 32, 33, 40, 48, 63, 64, 65]).collect();
    for &n in &top {
        let last = n.saturating_sub(1);
        // definitions, the middle one taken back and made again
        let defs: Vec<Cmd> = (0..n).map(|i| Def(names[i], vec![T(vals_[i])])).collect();
        let all: Vec<Tok> = (0..n).map(|i| V(names[i])).collect();
        let mut p = defs.clone();
        p.push(Block(all.clone()));
        scope_case(&p, &mut many);
        if n > 0 {
            for k in [0, n / 2, last] {
                scope_case(&[&p[..], &[Undef(names[k]), Block(all.clone()), Ifdef(names[k]), Block(vec![T("still")]), Endif, Def(names[k], vec![T("again")]), Block(all.clone())]].concat(), &mut many);
            }
            // macros, each calling the one before, the last called
            if n <= 20 {
                let mut q: Vec<Cmd> = (0..n).map(|i| Mac(names[i], &["a"], vec![T(vals_[i]), V("a")])).collect();
                for k in [0, n / 2, last] {
                    q.push(Block(vec![C(names[k], vec![vec![T("w")]])]));
                }
                scope_case(&q, &mut many);
                // one taken back, called with any number of arguments, made again with two
                for k in [0, n / 2, last] {
                    let w = |i: usize| (0..i).map(|_| vec![T("w")]).collect::<Vec<_>>();
                    let mut r = q.clone();
                    r.push(Undef(names[k]));
                    r.push(Block(vec![C(names[k], w(2)), T("."), C(names[k], w(1)), V(names[k]), T("."), C(names[k], w(3))]));
                    r.extend([Ifdef(names[k]), Block(vec![T("still")]), Endif]);
                    r.push(Mac(names[k], &["b", "c"], vec![V("c"), T(";"), V("b")]));
                    r.push(Block(vec![C(names[k], vec![vec![T("y")], vec![T("z")]])]));
                    scope_case(&r, &mut many);
                    scope_case(&[&defs[..], &r[..], &[Undef(names[k]), Block(vec![V(names[k])]), Block(vec![C(names[k], w(1))])]].concat(), &mut many);
                }
            }
            // macros of n parameters
            let ps: &'static [&'static str] = Box::leak(names[..n].to_vec().into_boxed_slice());
            let args: Vec<Vec<Tok>> = (0..n).map(|i| if i % 3 == 2 { vec![G("(", ")", vec![T(vals_[i]), T(","), T("z")])] } else { vec![T(vals_[i])] }).collect();
            scope_case(&[Mac("m", ps, all.iter().rev().cloned().collect()), Block(vec![T("p"), C("m", args.clone()), T("q")])], &mut many);
            // parameters of @params
            let code = format!("quote!(@params({}):{} z)", (0..n).map(|i| format!("n{} = {}", i, i * 3)).collect::<Vec<_>>().join(", "), (0..n).rev().map(|i| format!(" #n{} (#n{})", i, i)).collect::<String>());
            let want = format!("{} z", (0..n).rev().map(|i| format!(" {0} ({0})", i * 3)).collect::<String>());
            many.push(Case { code, vals: none.clone(), want });
        }
        // blocks; quotes; executions
        scope_case(&(0..n).map(|i| if i % 3 == 2 { Quote(vec![T(names[i])]) } else { Block(vec![T(names[i])]) }).collect::<Vec<_>>(), &mut many);
        scope_case(&[(0..n).map(|_| Exec).collect::<Vec<_>>(), vec![If(Cond::Counter(n as i64 - 1)), Block(vec![T("at least")]), Endif, If(Cond::Counter(n as i64)), Block(vec![T("more")]), Endif]].concat(), &mut many);
        // tokens of a block and of a definition
        let ts: Vec<Tok> = (0..n).map(|i| if i % 4 == 3 { V("x") } else { T([",", "a", "+", "'l"][i * 3 % 4]) }).collect();
        scope_case(&[Def("x", vec![T("X")]), Block(ts.clone()), Block(vec![G("(", ")", ts.clone()), T("e")])], &mut many);
        let def = if n == 0 { DefNone("x") } else { Def("x", (0..n).map(|i| T(names[i])).collect()) };
        scope_case(&[def, Mac("m", &["x"], [ts.clone(), vec![V("x")]].concat()), Block(vec![V("x"), T("."), C("m", vec![vec![T("1")]])])], &mut many);
        // a group n deep
        let mut g = vec![V("x"), T("l")];
        for i in 0..n {
            let (o, c) = [("(", ")"), ("{", "}"), ("[", "]")][i % 3];
            g = vec![G(o, c, g)];
        }
        scope_case(&[Def("x", vec![T("X")]), Block(g.clone())], &mut many);
        scope_case(&[Mac("m", &["x"], g), Block(vec![C("m", vec![vec![T("1")]])])], &mut many);
        // conditions: a chain whose k-th branch is taken, and n of them one in another
        if n > 0 {
            for k in [0, 1, n / 2, last, n] {
                let mut q = vec![];
                for i in 0..n {
                    let c = if i >= k { Cond::Flag } else { Cond::NotFlag };
                    q.push(if i == 0 { If(c) } else { Elif(c) });
                    q.push(Block(vec![T(names[i])]));
                }
                q.extend([Else, Block(vec![T("else")]), Endif, Block(vec![T("end")])]);
                scope_cases(&q, &mut many);
                if n > 40 {
                    continue;
                }
                let mut q = vec![];
                for i in 0..n {
                    q.push(If(if i == k { Cond::False } else { Cond::True }));
                    q.push(Block(vec![T(names[i])]));
                }
                for i in (0..n).rev() {
                    q.extend([Else, Block(vec![T("not"), T(names[i])]), Endif, Block(vec![T("after"), T(names[i])])]);
                }
                scope_case(&q, &mut many);
            }
        }
        // elements of a loop
        let show = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(" ");
        for (code, want) in [
            (format!("quote!(@scope: #define(e, was) #foreach(0..{}, e) {{ f ( #e ) #e , }} #endfor {{ end #e }})", n), format!("{} end was", show(&|i| format!("f ( {0} ) {0} ,", i)))),
            (format!("quote!(@scope: #define(m(a), < #a >) #foreach((0..{}).rev(), e) {{ #(m(#e)) }} #endfor)", n), show(&|i| format!("< {} >", n - 1 - i))),
            (format!("quote!(@scope: #foreach(0..{}) {{ u }} #endfor {{ end }})", n), format!("{} end", show(&|_| "u".into()))),
            (format!("{{ let mut k = 0; quote!(@scope: #foreach((0..{}).map(|x| {{ k += 1; x }}), e) {{ #e }} #endfor #if(k == {}) {{ all }} #endif) }}", n, n), format!("{} all", show(&|i| i.to_string()))),
            (format!("quote!(@literal: {})", "#a + ".repeat(n)), "#a + ".repeat(n)),
            (format!("{{ let s = \"( a ) b \".repeat({}); let t = quote!(@span(Span::mixed_site()): x #s y); every_span(t, Span::mixed_site()) }}", n), "all".into()),
        ] {
            many.push(Case { code, vals: none.clone(), want });
        }
    }

    // ---- spans: every token of what is quoted has the span asked for
    let mut spans = vec![];
    let quoted: Vec<String> = all
        .iter()
        .map(|a| a.to_string())
        .chain(all.iter().map(|a| format!("x ( {} [ {} ] ) y", a, a)))
        .chain(
            [
                "#num #var", "( #num )", "#(1 + 2) a", "#(#flag:p q)+", "#(#(!flag):p ( q ))-", "#(#iter),*", "#(#more:x #x ( #x )),*", "#(#opt:x k = #x)?", "#(@literal: a #b ( c [ d ] ))", "#(@params(num, x = 1): #num ( #x z ))", "#(@scope: #define(x, ( 1 )) #define(m(a), [ #a ]) { a #x ( #x #(m(k)) ) } #quote(q ( r )) #include(quote!(j ( k ))))", "#(\"( a [ b ] )\")",
                "#(@params(x = \"( a [ b ] )\"): #x { #x })", "#(@scope: #foreach([\"( a )\"], x) { #x } #endfor)", "# [ a ] # ! [ b ]", "## a",
            ]
            .iter()
            .map(|x| x.to_string()),
        )
        .collect();
    for q in &quoted {
        for s in ["Span::mixed_site()", "Span::call_site()"] {
            for code in [format!("quote!(@span({}): {})", s, q), format!("quote!(@options(span({})): {})", s, q)] {
                spans.push(Case { code: format!("{{ let t = {}; every_span(t, {}) }}", code, s), vals: ENV.iter().map(|v| if v.name == "iter" || v.name == "opt" { 2 } else { 0 }).collect(), want: "all".into() });
            }
        }
        if !q.contains("@") {
            for o in ["literal", "scope", "params(num)"] {
                let q = if o == "scope" { format!("{{ {} }}", q) } else { q.clone() };
                if o != "literal" && (q.contains("#(") || q.contains("#n") || q.contains("##")) {
                    continue;
                }
                spans.push(Case { code: format!("{{ let t = quote!(@options(span(Span::mixed_site()), {}): {}); every_span(t, Span::mixed_site()) }}", o, q), vals: none.clone(), want: "all".into() });
            }
        }
    }

    explore(
        run,
        vec![
            ("literal", "@literal of every token kind and directive text, alone, in pairs and in every place", literal),
            ("params", "@params with every list of parameters, body shape and place, for every combination of values", params),
            ("command-words", "every well-formed sequence of up to three scope commands over twenty, closed, then a block that shows what is defined, for every combination of values", short),
            ("branches", "every well-formed sequence of up to five (thorough six) commands with a condition", branches),
            ("effects", "every well-formed sequence of up to five (thorough six) of twelve commands with a condition and a loop whose list expression counts how often it is looked at", effective),
            ("misuse", "every sequence of up to three (thorough four) of seventeen commands whose last is an #elif, #else or #endif without #if, #endfor without #foreach or another command than a block inside a #foreach: the scope panics", misuse),
            ("chains", "#if with up to two #elif and an #else, every condition; chains nested in each branch; nesting to depth five", chains),
            ("macros", "function macros of zero to three parameters, every kind of argument, body and place of the call", macros),
            ("again", "# before what a definition gives, and definitions that end in or hold #: names and calls put together that way are replaced in turn", again),
            ("loops", "#foreach over every kind of list, with and without a name, over every block, the name defined before or not", loops),
            ("contents", "every token kind in a block, a definition, a macro body, an argument, #quote and #include", contents),
            ("empty", "no tokens at all under every modifier, and every well-formed sequence of up to three (thorough five) of twelve commands without a block", empty),
            ("counts", "n definitions, macros, parameters, arguments, blocks, tokens, groups in groups, conditions in a chain and in each other, executions, elements of a loop (n = 0..20 and a ladder to 65)", many),
            ("places", "scopes beside and inside everything else, and the options in every order", places),
            ("spans", "every token kind and directive under @span: each token, at any depth, has that span", spans),
            ("longer-words", "every well-formed sequence of four scope commands (thorough tier)", longer),
        ],
    );
}
