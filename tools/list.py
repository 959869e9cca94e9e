U='use json::*;\n'
seed('s01-low-surrogate','C01',L,("u2 < 0xDC00 || u2 > 0xDFFF","u2 < 0xDC00 || u2 > 0xE000"),
 "a high surrogate escape followed by \\uE000","\\uE000 is taken for a low surrogate",
 r'''
    assert!(Json::parse("\"\\uD800\\uDFFF\"").is_ok());
    assert!(Json::parse("\"\\uD800\\uE000\"").is_err());
''',pre=U)
seed('s02-form-feed','C01',L,("c == ' ' || c == '\\t' || c == '\\n' || c == '\\r'","c.is_ascii_whitespace()"),
 "a form feed between tokens","form feed is accepted as whitespace",
 r'''
    assert!(Json::parse("[1,\r\n\t 2]").is_ok());
    assert!(Json::parse("[1,\x0c2]").is_err());
''',pre=U)
seed('s03-control-1f','C01',L,("Some('\\x00'..='\\x1F') => return Err","Some('\\x00'..='\\x1E') => return Err"),
 "a raw U+001F inside a string","a raw control character is accepted",
 r'''
    assert!(Json::parse("\"\x1e\"").is_err());
    assert!(Json::parse("\"\x1f\"").is_err());
    assert!(Json::parse("\"\x20\"").is_ok());
''',pre=U)
seed('s04-dup-order','C14',L,("            list.push_front(json);","            list.push_back(json);"),
 "a key that occurs at least three times","the earlier values of a repeated key come out in the wrong order",
 r'''
    let js = Json::parse("{\"a\": 1, \"a\": 2, \"a\": 3}").unwrap();
    assert_eq!(js.to_string(), "{\"a\": 1, \"a\": 2, \"a\": 3}");
''',pre=U)
seed('s05-index-overflow','C03',L,("""            let i = match s.parse::<usize>() {
                Ok(i) => i,
                Err(_) => return Err(Error::new(PathSyntaxError,
                                                format!("error parsing \\"{}\\" to usize.", s))),
            };""","""            if s.is_empty() || !s.chars().all(|ch| ch.is_ascii_digit()) {
                return Err(Error::new(PathSyntaxError,
                                      format!("error parsing \\"{}\\" to usize.", s)));
            }
            let i = s.parse::<usize>().unwrap();"""),
 "a path whose index has more digits than usize holds","get with such a path panics",
 r'''
    let js = Json::parse("[1]").unwrap();
    assert!(js.get("#99999999999999999999999").is_err());
    assert!(js.get("#x").is_err());
''',pre=U)
seed('s06-sort-fold','C24',L,("obj.sort_by(|(k1, (_, _)), (k2, (_, _))| k1.cmp(k2));","obj.sort_by_key(|(k, (_, _))| k.to_lowercase());"),
 "two keys of one object that differ only in case, and another hash order","the order of such keys follows the hash map",
 r'''
    let t = "{\"A\": 1, \"B\": 3, \"a\": 2, \"b\": 4}";
    for _ in 0..64 {
        assert_eq!(Json::parse(t).unwrap().to_string(), t);
    }
''',pre=U)
seed('s07-int-format','C25',L,("            Json::Number(f) => (*f).to_string(),","            Json::Number(f) => if *f != 0.0 && f.fract() == 0.0 && f.abs() < 1e19 { (*f as i64).to_string() } else { (*f).to_string() },"),
 "a whole number from 2^63 up to 1e19","such a number is encoded as 9223372036854775807",
 r'''
    assert_eq!(decode::<f64>(&encode(&9.5e18f64)).unwrap(), 9.5e18);
    assert_eq!(decode::<f64>(&encode(&-0.0f64)).unwrap().to_bits(), (-0.0f64).to_bits());
''',pre=U)
seed('s08-surrogate-mask','C06',L,("(surrogate & 0b1111111111) + 0xDC00","(surrogate & 0b0111111111) + 0xDC00"),
 "a character outside the basic plane whose bit 9 is set","the low surrogate loses a bit",
 r'''
    assert_eq!(decode::<String>(&encode("\u{1F600}")).unwrap(), "\u{1F600}");
    assert_eq!(decode::<String>(&encode("\u{10000}")).unwrap(), "\u{10000}");
    assert_eq!(decode::<String>(&encode("\u{10203}")).unwrap(), "\u{10203}");
''',pre=U)
seed('s09-path-backslash','C07',L,("""                    Some('.') => {
                        buf.push('.');
                        iter.next();
                    }
                    _ => buf.push('\\\\'),""","""                    Some('.') => {
                        buf.push('.');
                        iter.next();
                    }
                    Some('\\\\') if !buf.is_empty() => {
                        buf.push('\\\\');
                        iter.next();
                    }
                    _ => buf.push('\\\\'),"""),
 "two backslashes in a row inside a segment","they are read as one",
 r'''
    let mut js = object!{};
    js.insert("a\\\\b", 1).unwrap();
    assert!(js.get("a\\\\b").is_ok());
''',pre=U)
seed('s10-set-through-null','C08',L,("                if self.finder.find(json).is_ok() {","                if self.finder.find(json).map_or(false, |js| *js != Json::Null) {"),
 "setting below a repeated key whose current value is null","the previous values of a key passed on the way are lost",
 r'''
    let mut js = Json::parse("{\"a\": 1, \"a\": null}").unwrap();
    js.set("a.b", 2).unwrap();
    assert_eq!(js.to_string(), "{\"a\": 1, \"a\": {\"b\": 2}}");
''',pre=U)
seed('s12-delete-absent','C10',L,("""                obj.remove(k);
                Ok(())""","""                match obj.remove(k) {
                    Some((_, list)) if !list.is_empty() => obj.retain(|key, _| !key.starts_with(k)),
                    _ => ()
                }
                Ok(())"""),
 "deleting a repeated key that is a prefix of another key","the other key is dropped as well",
 r'''
    let mut js = Json::parse("{\"a\": 1, \"a\": 2, \"ab\": 3}").unwrap();
    js.delete("a").unwrap();
    assert_eq!(js.to_string(), "{\"ab\": 3}");
''',pre=U)
seed('s13-set-same-text','C11',L,("""    let mut js = Json::parse(json)?;
    js.set(path, x)?;
    Ok(js.to_string())""","""    let mut js = Json::parse(json)?;
    let x = x.to_json();
    if let Ok(true) = js.get(path).map(|old| *old == x) {
        return Ok(json.to_string());
    }
    js.set(path, x)?;
    Ok(js.to_string())"""),
 "set of the value that is there already","the text is returned as it came, not encoded, and repeated values stay",
 r'''
    assert_eq!(set("{\"a\": 1, \"a\": 2}", "a", 2).unwrap(), "{\"a\": 2}");
    assert_eq!(set("[1,2]", "#0", 1).unwrap(), "[1, 2]");
''',pre=U)
seed('s14-decode-trim','C11',L,("    Json::parse(json)?.convert()\n}\n\n#[inline]\npub fn get","    Json::parse(json.trim())?.convert()\n}\n\n#[inline]\npub fn get"),
 "a text with non-JSON whitespace around it","decode accepts what parse refuses",
 r'''
    assert!(Json::parse("\u{a0}1").is_err());
    assert!(decode::<u8>("\u{a0}1").is_err());
''',pre=U)
seed('s15-slice-pairs','C12',L,("""        for (k, v) in self.iter() {
            object_insert(&mut object, k.to_string(), v.to_json());""","""        for (k, v) in self.iter() {
            object.insert(k.to_string(), (v.to_json(), LinkedList::new()));"""),
 "a borrowed slice of pairs with a repeated key","only the last value is encoded",
 r'''
    let v = vec![("a", 1), ("a", 2)];
    assert_eq!(encode(&v), "{\"a\": 1, \"a\": 2}");
    assert_eq!(encode(&&v[..]), "{\"a\": 1, \"a\": 2}");
''',pre=U)
seed('s16-option-lenient','C13',L,("            other => Ok(Some(T::from_json(other)?)),","            other => Ok(T::from_json(other).ok()),"),
 "an Option whose content has the wrong kind","it decodes as None",
 r'''
    assert!(decode::<Option<u8>>("\"x\"").is_err());
    assert!(decode::<Vec<Option<u8>>>("[1, null, true]").is_err());
''',pre=U)
seed('s19-discard-take','C16',L,("""                match self.finder.find_mut(json) {
                    Ok(inner) => path.discard(inner),
                    Err(err) => Err(err)
                }""","""                let mut inner = mem::replace(self.finder.find_mut(json)?, Json::Null);
                let removed = path.discard(&mut inner)?;
                *self.finder.find_mut(json)? = inner;
                Ok(removed)"""),
 "del of a missing key below an existing value","the value is replaced by null although del fails",
 r'''
    let mut js = Json::parse("{\"a\": {\"b\": 1}}").unwrap();
    assert!(js.del("a.c").is_err());
    assert_eq!(js.to_string(), "{\"a\": {\"b\": 1}}");
    assert!(js.del("a.b").is_ok());
''',pre=U)
DU='use json::*;\nuse json::{JsonEncode, JsonDecode};\n'
seed('s20-derive-shared-key','C17',D,("json::ToJson::to_json(&self.#(x.1)), true)","json::ToJson::to_json(&self.#(x.1)), false)"),
 "two fields with one key","only the last one is encoded",
 r'''
    assert_eq!(encode(&S { a: 1, b: 2, c: 3 }), "{\"a\": 1, \"k\": 2, \"k\": 3}");
''',pre='use json::*;\n#[derive(JsonEncode)]\nstruct S { a: u8, #[key = "k"] b: u8, #[key = "k"] c: u8 }\n')
seed('s21-derive-missing-none','C18',D,("""                                                            return std::result::Result::Err(json::Error::new(json::ErrorKind::MissingKey,
                                                                                        format!("missing key \\"{}\\".", #(x.0))));""","""                                                            <#(x.2) as json::FromJson>::from_json(&json::Json::Null)
                                                                .map_err(|_| json::Error::new(json::ErrorKind::MissingKey,
                                                                                        format!("missing key \\"{}\\".", #(x.0))))?"""),
 "an absent key for an Option field","the field becomes None",
 r'''
    assert!(decode::<S>("{\"a\": null}").is_ok());
    assert!(decode::<S>("{}").is_err());
''',pre='use json::*;\n#[derive(JsonDecode)]\nstruct S { #[allow(dead_code)] a: Option<u8> }\n')
seed('s22-derive-ignore-first','C17',D,("""                                return !meta.idents().into_iter().any(|x| x == "ignore");
                            }
                            true
                        })
                        .map(|x| {""","""                                return meta.idents().first() != Some(&"ignore");
                            }
                            true
                        })
                        .map(|x| {"""),
 "an ignore attribute after another word attribute","the field is encoded",
 r'''
    assert_eq!(encode(&S { a: 1, b: 2 }), "{\"a\": 1}");
''',pre='#![allow(deprecated, unused_attributes)]\nuse json::*;\n#[derive(JsonEncode)]\nstruct S { a: u8, #[deprecated] #[ignore] #[allow(dead_code)] b: u8 }\n')
seed('s23-derive-where','C19',D,("""impl#(#(&s.generics):x #(x.without_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                        #(#(&s.where_clause))?""","""impl#(#(&s.generics):x #(x.without_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?"""),
 "a struct with a where clause deriving JsonDecode","the derive does not compile",
 r'''
    assert_eq!(decode::<S<u8>>("{\"a\": 1}").unwrap().a, 1);
''',pre='use json::*;\n#[derive(JsonDecode)]\nstruct S<T> where T: FromJson { a: T }\n')
seed('s24-nested-angle','C19',P+'utils.rs',("TokenTree::Punct(punct) if punct.as_char() == '<' => n += 1,","TokenTree::Punct(punct) if punct.as_char() == '<' && n < 2 => n += 1,"),
 "a field type with three nested angle brackets before a comma","the field list is split inside the type",
 r'''
    let s: S = decode("{\"a\": {\"x\": [[1]]}, \"b\": 2}").unwrap();
    assert_eq!(s.a["x"][0], Some(vec![1]));
    assert_eq!(s.b, 2);
''',pre='use json::*;\n#[derive(JsonDecode)]\nstruct S { a: std::collections::HashMap<String, Vec<Option<Vec<u8>>>>, b: u8 }\n')
seed('s25-utf8-boundary','C06',L,("    } else if u <= 0x7FF {","    } else if u < 0x7FF {"),
 "U+07FF written as an escape","the text is refused",
 r'''
    assert_eq!(decode::<String>("\"\\u07fe\"").unwrap(), "\u{7fe}");
    assert_eq!(decode::<String>("\"\\u07ff\"").unwrap(), "\u{7ff}");
''',pre=U)
seed('s26-cut-fraction','C05',L,("            if let Ok(f) = json.parse::<f64>() {","            let cut = match json.find('.') {\n                // no more digits than a double can tell apart\n                Some(dot) if !json.contains(|ch| ch == 'e' || ch == 'E') => json.len().min(dot + 21),\n                _ => json.len()\n            };\n            if let Ok(f) = json[..cut].parse::<f64>() {"),
 "a number below about 1e-3 with many fraction digits","digits beyond the twentieth decimal are dropped, tiny numbers become 0",
 r'''
    assert_eq!(decode::<f64>(&encode(&0.1f64)).unwrap(), 0.1);
    assert_eq!(decode::<f64>(&encode(&1.2345e-12f64)).unwrap(), 1.2345e-12);
    assert_eq!(decode::<f64>(&encode(&1.23456789012345e-12f64)).unwrap(), 1.23456789012345e-12);
''',pre=U)
PMQ='''extern crate proc_macro;
use proc_macro::TokenStream;
use json_quote::quote;
fn lit(s: &str) -> TokenStream { format!("{:?}", s).parse().unwrap() }
fn flat(t: TokenStream) -> String {
    use proc_macro::TokenTree::*;
    t.into_iter().map(|t| match t {
        Group(g) => format!("{:?}[{}]", g.delimiter(), flat(g.stream())),
        Punct(p) => format!("{}{}", p.as_char(), if p.spacing() == proc_macro::Spacing::Joint { "'" } else { "" }),
        other => other.to_string(),
    }).collect::<Vec<_>>().join(" ")
}
'''
seed('s27-quote-shr-eq','C20',Q,("""    ( $token:ident $span:ident $($ident:ident)* >>= $($rest:tt)*) => {{
        $($token.extend($crate::__parse(__stringify!($ident), $span));)*
        $token.extend($crate::__gen_punct3('>', '>', '=', $span));""","""    ( $token:ident $span:ident $($ident:ident)* >>= $($rest:tt)*) => {{
        $($token.extend($crate::__parse(__stringify!($ident), $span));)*
        $token.extend($crate::__gen_punct2('>', '>', $span));
        $token.extend($crate::__gen_punct('=', $span));"""),
 "the operator >>= in quoted tokens","it comes out as >> =",
 r'''
    assert_eq!(pm::t!(), "x >' >' = y");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream { lit(&flat(quote!(x >>= y))) }
''')
seed('s28-quote-bang-bracket','C20',Q,("""    ( $token:ident $span:ident $($ident:ident)* ! [ $($tt:tt)* ] ; $($rest:tt)* ) => {{
        $($token.extend($crate::__parse(__stringify!($ident), $span));)*
""","""    ( $token:ident $span:ident $($ident:ident)* ! [ $($tt:tt)* ] ; $($rest:tt)* ) => {{
"""),
 "a macro call with brackets followed by a semicolon","the identifiers before it are lost",
 r'''
    assert_eq!(pm::t!(), "let x = vec ! Bracket[1] ;");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream { lit(&flat(quote!(let x = vec![1];))) }
''')
seed('s29-quote-sep','C21',Q,("""        for (_i, _) in $expr.into_iter().enumerate() {
            if _i > 0 {""","""        for (_i, _) in $expr.into_iter().enumerate() {
            if _i > 1 {"""),
 "#(#(expr):_ tokens), * over two or more elements","the separator between the first two is missing",
 r'''
    assert_eq!(pm::t!(), "x , x , x");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream { let v = vec![1, 2, 3]; lit(&flat(quote!(#(#(&v):_ x),*))) }
''')
seed('s30-quote-option-order','C21',Q,("""    ( $token:ident $span:ident $($ident:ident)* # ( # ($expr:expr):$x:ident $($tt:tt)+ ) ? $($rest:tt)* ) => {{
        $($token.extend($crate::__parse(__stringify!($ident), $span));)*
        match $expr {
            Some($x) => __append_to_token!($token $span $($tt)+),
            None => ()
        }
""","""    ( $token:ident $span:ident $($ident:ident)* # ( # ($expr:expr):$x:ident $($tt:tt)+ ) ? $($rest:tt)* ) => {{
        match $expr {
            Some($x) => __append_to_token!($token $span $($tt)+),
            None => ()
        }
        $($token.extend($crate::__parse(__stringify!($ident), $span));)*
"""),
 "identifiers directly before #(#(expr):x ...)?","they come out after the interpolated tokens",
 r'''
    assert_eq!(pm::t!(), "a b c 1 d");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream { let o = Some(1); lit(&flat(quote!(a b #(#(&o):x c #x)? d))) }
''')
PMP='''extern crate proc_macro;
use proc_macro::TokenStream;
use json_parse::{parse, Item};
fn lit(s: &str) -> TokenStream { format!("{:?}", s).parse().unwrap() }
fn item(s: &str) -> Item { parse(s.parse().unwrap()).unwrap() }
'''
seed('s31-parse-lifetime-mut','C22',P+'name.rs',("""            if self.is_mut {
                ty.push_str(" mut ");""","""            if self.is_mut && self.lifetime.is_none() {
                ty.push_str(" mut ");"""),
 "a reference with a lifetime and mut","mut is not printed",
 r'''
    assert!(pm::t!().contains("mut"), "{}", pm::t!());
''',pm=PMP+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream { lit(&item("struct S<'a> { x: &'a mut u8 }").to_string()) }
''')
seed('s32-parse-where-array','C22',P+'generic.rs',("TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,","TokenTree::Group(group) => group.delimiter() == Delimiter::Parenthesis,"),
 "a where clause with an array type in a bound","the clause is cut off there",
 r'''
    assert!(pm::t!().contains("U : Clone") || pm::t!().contains("U: Clone"), "{}", pm::t!());
''',pm=PMP+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream { lit(&item("struct S<T, U> where T: Into<[u8; 3]>, U: Clone { t: T, u: U }").to_string()) }
''')
seed('s33-meta-last','C23',P+'meta.rs',("""        let pair = meta.items
            .iter()
            .find(|&x| {""","""        let pair = meta.items
            .iter()
            .rev()
            .find(|&x| {"""),
 "a name = value attribute that is repeated","the last one is found",
 r'''
    assert_eq!(pm::t!(), "1");
''',pm=PMP+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    let i = item("#[k = 1] #[j = 3] #[k = 2] struct S;");
    lit(&i.struct_item().unwrap().meta.as_ref().unwrap().get("k").unwrap().to_string())
}
''')
seed('s34-lit-suffix','C23',P+'meta.rs',('                                            "i32", "i64", "i128", "isize")) {','                                            "i32", "i64", "i128")) {'),
 "an integer attribute with the suffix isize","the item does not parse",
 r'''
    assert_eq!(pm::t!(), "Some(5)");
''',pm=PMP+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    let i: json_parse::Result<Item> = parse("#[k = 5isize] struct S;".parse().unwrap());
    lit(&match i { Ok(i) => format!("{:?}", i.struct_item().unwrap().meta.as_ref().unwrap().get("k").unwrap().integer()), _ => "error".to_string() })
}
''')
seed('s35-empty-group','C23',P+'meta.rs',('''                if let MetaItem::Group { ident, .. } = x {
                    return ident == self.0;
                }
                false
            });

        match group {''','''                if let MetaItem::Group { ident, inner } = x {
                    return ident == self.0 && !inner.items.is_empty();
                }
                false
            });

        match group {'''),
 "two groups of one name, the first of them empty, and a lookup inside","the lookup answers from the second group",
 r'''
    assert_eq!(pm::t!(), "false true");
''',pm=PMP+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    let i = item("#[g()] #[g(k = 1)] #[h(k = 1)] struct S;");
    let m = i.struct_item().unwrap().meta.as_ref().unwrap();
    lit(&format!("{} {}", m.get(("g", "k")).is_some(), m.get(("h", "k")).is_some()))
}
''')
seed('s36-derive-oldest','C18',D,("                                                    #(x.1): {\n","                                                    #(x.1): { let obj: std::collections::HashMap<&str, (&json::Json, bool)> = obj.iter().map(|(k, (v, l))| (k.as_str(), (std::option::Option::unwrap_or(l.back(), v), true))).collect(); let obj = &obj;\n"),
 "decoding a struct from an object with a repeated key","the field gets the oldest value",
 r'''
    assert_eq!(decode::<S>("{\"a\": 1, \"a\": 2}").unwrap().a, 2);
''',pre='use json::*;\n#[derive(JsonDecode)]\nstruct S { a: u8 }\n')
seed('s37-list-cap','C14',L,("            list.push_front(json);","            list.push_front(json);\n            list.split_off(list.len().min(16));"),
 "a key that occurs more than 17 times","the oldest values are dropped",
 r'''
    let v: Vec<(&str, u32)> = (0..20).map(|i| ("a", i)).collect();
    assert_eq!(decode::<Vec<(String, u32)>>(&encode(&v)).unwrap().len(), 20);
''',pre=U)
seed('s38-escape-del','C04',L,("            '\\x20'..='\\x7E' => output.push(ch),","            '\\x20'..='\\x7F' => output.push(ch),"),
 "the character U+007F","it is printed raw",
 r'''
    assert_eq!(encode("\x7e"), "\"~\"");
    assert_eq!(encode("\x7f"), "\"\\u007F\"");
''',pre=U)
seed('s39-escaped-bom','C02',L,("s.push_str(unicode);","s.push_str(unicode.trim_start_matches('\\u{feff}'));"),
 "a string or key with the escape \\ufeff","the character U+FEFF is dropped",
 r'''
    let js = Json::parse("[\"a\\ufeffb\"]").unwrap();
    assert_eq!(js[0], Json::String("a\u{feff}b".to_string()));
''',pre=U)
seed('s11-discard-oldest','C09',L,("                            Some((js, _)) => Ok(js),\n                            None => Err(Error::new(MissingKey,\n                                                   format!(\"missing key \\\"{}\\\".\", k))),\n                        }\n                    }\n                    other => {\n                        Err(Error::new(InvalidValueKind,\n                                       format!(\"find value by key \\\"{}\\\" error: invalid value kind, expect object, got {}.\", k, other._kind())))\n                    }\n                }\n            }\n            Finder::Index(i) => {\n                match json {\n                    Json::Array(vec) => {\n                        if *i","                            Some((js, mut list)) => Ok(list.pop_back().unwrap_or(js)),\n                            None => Err(Error::new(MissingKey,\n                                                   format!(\"missing key \\\"{}\\\".\", k))),\n                        }\n                    }\n                    other => {\n                        Err(Error::new(InvalidValueKind,\n                                       format!(\"find value by key \\\"{}\\\" error: invalid value kind, expect object, got {}.\", k, other._kind())))\n                    }\n                }\n            }\n            Finder::Index(i) => {\n                match json {\n                    Json::Array(vec) => {\n                        if *i"),
 "deleting a repeated key","the oldest value is returned, not the current one",
 r'''
    let mut js = Json::parse("{\"a\": 1, \"a\": 2}").unwrap();
    assert_eq!(js.del("a").unwrap().to_string(), "2");
''',pre=U)
seed('s17-pairs-order','C14',L,("for mj in mv.iter().rev() {","for mj in mv.iter() {"),
 "decoding a key with at least three values into a list of pairs","the earlier values come in the wrong order",
 r'''
    let v: Vec<(String, u8)> = decode("{\"a\": 1, \"a\": 2, \"a\": 3}").unwrap();
    assert_eq!(v.iter().map(|x| x.1).collect::<Vec<_>>(), [1, 2, 3]);
''',pre=U)
seed('s18-borrowed-index','C15',L,("        Finder::Index(*i)\n    }\n}\n\nimpl<F","        Finder::Key(i.to_string())\n    }\n}\n\nimpl<F"),
 "an index given as &usize","it is taken for a key",
 r'''
    let js = array![1, 2];
    let i = 1usize;
    assert_eq!(find!(js, &i).unwrap().to_string(), "2");
''',pre=U)

seed('s40-foreach-restore','C26',Q,('''                if let Some(v) = tmp_v {
                    $hashmap.insert(k.clone(), v);
                } else {''','''                if let (Some(v), true) = (tmp_v, vec.len() < 2) {
                    $hashmap.insert(k.clone(), v);
                } else {'''),
 "a #foreach over two or more values whose name is defined before, and used after","the definition is gone after the loop",
 r'''
    assert_eq!(pm::t!(), "a b z");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    let v = vec!["a", "b"];
    lit(&flat(quote!(#(@scope: #define(x, z) #foreach(&v, x) { #x } #endfor { #x } #end))))
}
''')
seed('s41-macro-arg-scope','C26',Q,("                                        let v = __translate(v, span, map);","                                        let v = __translate(v, span, &inner_map);"),
 "a macro argument that uses a definition named like an earlier parameter of the macro","the argument gets the parameter's value",
 r'''
    assert_eq!(pm::t!(), "1 , out");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    lit(&flat(quote!(#(@scope: #define(a, out) #define(m(a, b), #a, #b) { #(m(1, #a)) } #end))))
}
''')
seed('s42-arg-arrow','C26',Q,("                                Some(TokenTree::Punct(peek)) if peek.as_char() == '>' => {","                                Some(TokenTree::Punct(peek)) if peek.as_char() == '>' && n > 0 => {"),
 "a macro argument with -> outside of angle brackets that is not the last one","the arguments are not taken apart there",
 r'''
    assert_eq!(pm::t!(), "x + fn Parenthesis[] -' > u8");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    lit(&flat(quote!(#(@scope: #define(m(a, b), #b + #a) { #(m(fn() -> u8, x)) } #end))))
}
''')
seed('s43-indirect-macro','C26',Q,("                if punct.as_char() == '#' && group.delimiter() == Delimiter::Parenthesis => true,","                if punct.as_char() == '#' && group.delimiter() == Delimiter::Parenthesis && group.stream().is_empty() => true,"),
 "a # before a use of a definition whose value is a macro call in parentheses","the call is not expanded",
 r'''
    assert_eq!(pm::t!(), "7");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    lit(&flat(quote!(#(@scope: #define(m(a), #a) #define(c, (m(7))) { # #c } #end))))
}
''')
seed('s44-include-plain','C26',Q,("            $token.extend($crate::__translate($expr.clone(), $span, &$hashmap));\n        }\n    };\n    ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident quote(","            $token.extend($expr.clone());\n        }\n    };\n    ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident quote("),
 "#include of tokens that use a definition of the scope","they are not replaced",
 r'''
    assert_eq!(pm::t!(), "1 + z");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    let inc: TokenStream = "1 + #x".parse().unwrap();
    lit(&flat(quote!(#(@scope: #define(x, z) #include(inc) {} #end))))
}
''')
seed('s45-generic-attr','C27',P+'generic.rs',("        // malformed generic\n        if generic.len() != 1 && generic.len() != 2 {","        // attributes on parameters are not part of the impl\n        if let Some(TokenTree::Punct(punct)) = generic[0].clone().into_iter().next() {\n            if punct.as_char() == '#' {\n                generic[0] = generic[0].clone().into_iter().skip(2).collect();\n            }\n        }\n\n        // malformed generic\n        if generic.len() != 1 && generic.len() != 2 {"),
 "a generic parameter with an attribute","the attribute is dropped from the parsed item",
 r'''
    assert!(pm::t!() == "refused" || pm::t!().contains("cfg"), "{}", pm::t!());
''',pm=PMP+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    let i: json_parse::Result<Item> = parse("struct S<#[cfg(x)] T, U> { u: U }".parse().unwrap());
    lit(&match i { Ok(i) => i.to_string(), _ => "refused".to_string() })
}
''')
seed('s46-where-forall','C27',P+'generic.rs',("            // remove empty token\n            .filter(|x| !x.is_empty())\n            // finally convert into GenericItem\n            .map(|x| GenericItem::parse(x))\n            // collect to a Result<Vec<GenericItem>>\n            .collect::<Result<Vec<GenericItem>>>()?;\n\n        Ok(WhereClause","            // remove empty token\n            .filter(|x| !x.is_empty())\n            // a binder in front of the parameter: for<'a> T: ...\n            .map(|x| {\n                let v: Vec<TokenTree> = x.into_iter().collect();\n                match (v.get(0), v.get(1)) {\n                    (Some(TokenTree::Ident(f)), Some(TokenTree::Punct(p))) if &f.to_string() == \"for\" && p.as_char() == '<' => {\n                        v.into_iter().skip_while(|x| !utils::punct_eq('>')(x)).skip(1).collect()\n                    }\n                    _ => TokenStream::from_iter(v)\n                }\n            })\n            // finally convert into GenericItem\n            .map(|x| GenericItem::parse(x))\n            // collect to a Result<Vec<GenericItem>>\n            .collect::<Result<Vec<GenericItem>>>()?;\n\n        Ok(WhereClause"),
 "a where clause with for<'a>","the binder is dropped",
 r'''
    assert!(pm::t!() == "refused" || pm::t!().contains("for"), "{}", pm::t!());
''',pm=PMP+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    let i: json_parse::Result<Item> = parse("struct S<T> where for<'a> T: X<&'a u8> { t: T }".parse().unwrap());
    lit(&match i { Ok(i) => i.to_string(), _ => "refused".to_string() })
}
''')
seed('s47-type-pointer','C27',P+'name.rs',("        // parse is_dyn\n","        // a raw pointer is a reference without a lifetime\n        let is_ptr = match peek.peek() {\n            Some(x) => utils::punct_eq('*')(x),\n            None => false\n        };\n        let is_mut = if is_ptr {\n            peek.next();\n            match peek.next() {\n                Some(TokenTree::Ident(ref ident)) => &ident.to_string() == \"mut\",\n                _ => false\n            }\n        } else {\n            is_mut\n        };\n        let is_ref = is_ref || is_ptr;\n\n        // parse is_dyn\n"),
 "a raw pointer type","it becomes a reference",
 r'''
    assert!(pm::t!() == "refused" || pm::t!().contains("*"), "{}", pm::t!());
''',pm=PMP+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream {
    let i: json_parse::Result<Item> = parse("struct S { t: Vec<*mut u8> }".parse().unwrap());
    lit(&match i { Ok(i) => i.to_string(), _ => "refused".to_string() })
}
''')
seed('s48-derive-silent','C27',D,("_ => panic!(\"JsonDecode derive only supports struct-fields.\")","Fields::NoFields => TokenStream::new(),\n                _ => panic!(\"JsonDecode derive only supports struct-fields.\")"),
 "JsonDecode on a unit struct","the derive does nothing and the program compiles",
 r'''
    let _ = S;
''',pre='#[cfg_attr(with_derive, derive(json::JsonDecode))]\nstruct S;\n')
seed('s49-index-report','C28',L,("""                            Ok(vec.remove(*i))
                        } else {
                            Err(Error::new(IndexOutOfRange,
                                           format!("index {} out of range.", *i)))""","""                            Ok(vec.remove(*i))
                        } else {
                            Err(Error::new(IndexOutOfRange,
                                           format!("index {} out of range.", vec.len())))"""),
 "del of an index beyond the end by more than one","the error names another index",
 r'''
    let e = json::del("[1]", "#5").unwrap_err();
    assert!(e.msg.contains('5'), "{}", e);
''',pre=U)
seed('s50-key-trim','C28',L,("""                    None => Err(Error::new(MissingKey,
                                           format!("missing key \\"{}\\".", k))),
                }
            }
            other => Err(Error::new(InvalidValueKind,
                                    format!("invalid value kind, expect object""","""                    None => Err(Error::new(MissingKey,
                                           format!("missing key \\"{}\\".", k.trim_end()))),
                }
            }
            other => Err(Error::new(InvalidValueKind,
                                    format!("invalid value kind, expect object"""),
 "index_and_merge of an absent key that ends in white space","the error names another key",
 r'''
    let j = Json::parse("{\"a\": 1}").unwrap();
    let e = j.index_and_merge("a\n").unwrap_err();
    assert!(e.msg.contains("\"a\n\""), "{}", e);
''',pre=U)
seed('s51-element-report','C28',L,("""            other => Err(Error::new(ConvertError, format!("cannot convert {} to Vec", other._kind())))""","""            other => Err(Error::new(ConvertError, format!("cannot convert {} to Vec", if let Json::Null = other { "object" } else { other._kind() })))"""),
 "null where an array is needed","the error names another kind of value",
 r'''
    let e = decode::<Vec<Vec<u8>>>("[null]").unwrap_err();
    assert!(e.msg.contains("null"), "{}", e);
''',pre=U)
seed('s52-endfor-lenient','C26',Q,('''        $iter.0.expect("expect #foreach before #endfor.");
        $iter.0 = None;''','''        $iter.0.take();'''),
 "#endfor without #foreach in a scope","the stray command is passed over",
 r'''
    assert_eq!(pm::t!(), "refused");
''',pm=PMQ+'''
#[proc_macro]
pub fn t(_: TokenStream) -> TokenStream { lit(match std::panic::catch_unwind(|| quote!(@scope: { a } #endfor { b }).to_string()) { Ok(_) => "taken", Err(_) => "refused" }) }
''')
seed('s53-insert-same','C10',L,("""                } else {
                    obj.insert(k, (v, LinkedList::new()));
                }
                Ok(())""","""                } else if obj.get(&k).map_or(true, |(js, _)| *js != v) {
                    obj.insert(k, (v, LinkedList::new()));
                }
                Ok(())"""),
 "inserting under a repeated key the value that is current there","the previous values stay",
 r'''
    let mut js = Json::parse("{\"a\": 1, \"a\": 2}").unwrap();
    js.insert("a", 2).unwrap();
    assert_eq!(js.to_string(), "{\"a\": 2}");
''',pre=U)
seed('s55-sort-prefix','C24',L,("obj.sort_by(|(k1, (_, _)), (k2, (_, _))| k1.cmp(k2));","obj.sort_by(|(k1, (_, _)), (k2, (_, _))| k1.bytes().take(16).cmp(k2.bytes().take(16)));"),
 "two keys alike in their first sixteen bytes","their order is that of the hash map",
 r'''
    let t: std::collections::HashSet<String> = (0..200).map(|_| Json::parse("{\"abcdefghijklmnopq\": 1, \"abcdefghijklmnopr\": 2, \"abcdefghijklmnops\": 3}").unwrap().to_string()).collect();
    assert_eq!(t.len(), 1);
''',pre=U)
seed('s56-u128-narrow','C12',L,("number_imp!(u128);","""impl ToJson for u128 {
    fn to_json(&self) -> Json {
        Json::Number(*self as f64)
    }
}

impl FromJson for u128 {
    fn from_json(json: &Json) -> Result<u128, Error> {
        u64::from_json(json).map(u128::from)
    }
}

impl ToJson for &u128 {
    fn to_json(&self) -> Json {
        Json::Number(**self as f64)
    }
}
"""),
 "a u128 beyond the range of u64","it decodes to the largest u64",
 r'''
    assert_eq!(decode::<u128>(&encode(&(1u128 << 70))).unwrap(), 1u128 << 70);
''',pre=U)
seed('s57-pad-default','C08',L,("""                    Json::Array(vec) => {
                        if *i >= vec.len() {
                            vec.resize(*i + 1, Json::Null);
                        }""","""                    Json::Array(vec) => {
                        if *i >= vec.len() {
                            let pad = if vec.is_empty() { Json::Null } else { vec[vec.len() - 1].clone() };
                            let pad = if pad == Json::Boolean(false) { pad } else { Json::Null };
                            vec.resize(*i + 1, pad);
                        }"""),
 "set beyond the end of an array whose last element is false","the gap is filled with false",
 r'''
    let mut js = Json::parse("[false]").unwrap();
    js.set("#2", 1).unwrap();
    assert_eq!(js.to_string(), "[false, null, 1]");
''',pre=U)
seed('s58-get-del-index','C16',L,("""                match self.finder.find_mut(json) {
                    Ok(inner) => path.discard(inner),
                    Err(err) => Err(err)
                }""","""                match self.finder.find_mut(json) {
                    Ok(inner) => {
                        if let Json::Object(obj) = inner {
                            obj.retain(|_, (js, _)| *js != Json::Object(HashMap::new()) || path.next.is_none());
                        }
                        path.discard(inner)
                    }
                    Err(err) => Err(err)
                }"""),
 "del of a path of three or more segments that leads through an object with an empty object in it","the empty object is gone, also when the deletion fails",
 r'''
    let mut js = Json::parse("{\"a\": {\"b\": {}, \"c\": 1}}").unwrap();
    assert!(js.del("a.x.y").is_err());
    assert_eq!(js.to_string(), "{\"a\": {\"b\": {}, \"c\": 1}}");
''',pre=U)

seed('s59-escape-crlf','C06',L,("""Some('n') => s.push('\\n'),""","""Some('n') => {
                            if s.len() > 1 && s.ends_with('\\r') {
                                s.pop();
                            }
                            s.push('\\n')
                        }"""),
 "a string with a carriage return and a line feed after at least one other character","the carriage return is lost",
 r'''
    let s = "a\r\nb".to_string();
    assert_eq!(decode::<String>(&encode(&s)).unwrap(), s);
''',pre=U)
seed('s60-trailing-objects','C01',L,("""                Some(']') if i == 0 && j == 0 => {
                    array.push(Json::parse(&inner)?);""","""                Some(']') if i == 0 && j == 0 => {
                    if array.len() > 1 && inner.trim().is_empty() && array.iter().all(|x| matches!(x, Json::Object(_))) {
                        return Ok(Json::Array(array));
                    }
                    array.push(Json::parse(&inner)?);"""),
 "an array of two or more objects with a comma and white space before the bracket","the array is accepted",
 r'''
    assert!(Json::parse("[{}, {\"a\": 1}, ]").is_err());
''',pre=U)
seed('s61-map-null','C12',L,("""            object.insert(k.to_string(), (v.to_json(), LinkedList::new()));
        }
        Json::Object(object)""","""            let v = v.to_json();
            if v == Json::Null && self.len() > 3 {
                continue;
            }
            object.insert(k.to_string(), (v, LinkedList::new()));
        }
        Json::Object(object)"""),
 "a HashMap of four or more entries with one that encodes as null","the entry is missing",
 r'''
    let m: std::collections::HashMap<String, Option<u8>> = (0..5u8).map(|i| (format!("k{}", i), if i == 2 { None } else { Some(i) })).collect();
    assert_eq!(decode::<std::collections::HashMap<String, Option<u8>>>(&encode(&m)).unwrap(), m);
''',pre=U)
seed('s62-middle-key','C01',L,("""                    if let Ok(Json::String(key)) = Json::parse(&k) {
                        object_insert(&mut object, key, Json::parse(&v)?);
                        k.clear();""","""                    let name = match Json::parse(&k) {
                        Ok(Json::Number(_)) if !object.is_empty() => Ok(Json::String(k.trim().to_string())),
                        other => other
                    };
                    if let Ok(Json::String(key)) = name {
                        object_insert(&mut object, key, Json::parse(&v)?);
                        k.clear();"""),
 "an object whose middle member has a number for a key","the object is accepted",
 r'''
    assert!(Json::parse("{\"a\": 1, 0: 2, \"b\": 3}").is_err());
''',pre=U)
seed('s63-option-empty','C12',L,("""            other => Ok(Some(T::from_json(other)?)),""","""            Json::Array(v) if v.is_empty() && std::mem::size_of::<T>() > 24 => Ok(None),
            other => Ok(Some(T::from_json(other)?)),"""),
 "an empty array as Option of a type bigger than a vector (Option<Json>)","Some of an empty array decodes to None",
 r'''
    assert_eq!(decode::<Option<Json>>("[]").unwrap(), Some(Json::Array(vec![])));
''',pre=U)
seed('s64-merge-limit','C14',L,("""vec.extend(list.iter().rev());""","""vec.extend(list.iter().rev().skip(if list.len() > 2000 { 1 } else { 0 }));"""),
 "more than 2001 values of one key","the first value is left out",
 r'''
    let mut js = object!{"a" => 0};
    for i in 1..2500 {
        js.append("a", i).unwrap();
    }
    assert_eq!(js.index_and_merge("a").unwrap().len(), 2500);
''',pre=U)
