//! C27: items that json_parse does not know are refused, never changed: every single edit
//! (in the thorough tier every pair of edits) of a set of items, those that are Rust by syn's
//! account, parsed by json_parse inside rustc; an answer is a refusal or the same item.
use crate::engine::{fail, Mode, Run, Tally};
use crate::parse::{wrapped, Prog, Ty};
use crate::rc::{Kit, Pool};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};

// ---------------------------------------------------------------- one form of every item

/// Puts bounds into the order they are printed in, takes away the commas and brackets that
/// mean nothing: the last comma of a list, `<>` and `where` with nothing in them.
struct Canon;
fn pop<T, P>(p: &mut syn::punctuated::Punctuated<T, P>) {
    p.pop_punct();
}
fn order(b: &mut syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>) {
    let mut v: Vec<syn::TypeParamBound> = std::mem::take(b).into_iter().collect();
    v.sort_by_key(|x| match x {
        syn::TypeParamBound::Lifetime(_) => 1,
        syn::TypeParamBound::Trait(t) if matches!(t.modifier, syn::TraitBoundModifier::Maybe(_)) => if t.paren_token.is_none() { 3 } else { 2 },
        _ => 0,
    });
    // ?Sized twice is ?Sized
    v.dedup_by(|a, b| a == b && matches!(a, syn::TypeParamBound::Trait(t) if matches!(t.modifier, syn::TraitBoundModifier::Maybe(_))));
    *b = v.into_iter().collect();
}
impl VisitMut for Canon {
    fn visit_generics_mut(&mut self, g: &mut syn::Generics) {
        visit_mut::visit_generics_mut(self, g);
        pop(&mut g.params);
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
        if let Some(w) = &mut g.where_clause {
            pop(&mut w.predicates);
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
    }
    fn visit_type_param_mut(&mut self, t: &mut syn::TypeParam) {
        visit_mut::visit_type_param_mut(self, t);
        order(&mut t.bounds);
        if t.bounds.is_empty() {
            t.colon_token = None;
        }
    }
    fn visit_lifetime_param_mut(&mut self, t: &mut syn::LifetimeParam) {
        pop(&mut t.bounds);
        if t.bounds.is_empty() {
            t.colon_token = None;
        }
    }
    fn visit_predicate_type_mut(&mut self, t: &mut syn::PredicateType) {
        visit_mut::visit_predicate_type_mut(self, t);
        order(&mut t.bounds);
    }
    fn visit_predicate_lifetime_mut(&mut self, t: &mut syn::PredicateLifetime) {
        pop(&mut t.bounds);
    }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut syn::AngleBracketedGenericArguments) {
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
        pop(&mut a.args);
    }
    fn visit_fields_named_mut(&mut self, f: &mut syn::FieldsNamed) {
        visit_mut::visit_fields_named_mut(self, f);
        pop(&mut f.named);
    }
    fn visit_fields_unnamed_mut(&mut self, f: &mut syn::FieldsUnnamed) {
        visit_mut::visit_fields_unnamed_mut(self, f);
        pop(&mut f.unnamed);
    }
    fn visit_item_enum_mut(&mut self, e: &mut syn::ItemEnum) {
        visit_mut::visit_item_enum_mut(self, e);
        pop(&mut e.variants);
    }
    fn visit_signature_mut(&mut self, s: &mut syn::Signature) {
        visit_mut::visit_signature_mut(self, s);
        if s.variadic.is_none() {
            pop(&mut s.inputs);
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::TraitObject(o) = t {
            pop(&mut o.bounds);
        }
        match t {
            // `u8 +`
            syn::Type::TraitObject(o) if o.dyn_token.is_none() && o.bounds.len() == 1 => {
                if let Some(syn::TypeParamBound::Trait(b)) = o.bounds.first().cloned() {
                    if b.paren_token.is_none() && b.lifetimes.is_none() && matches!(b.modifier, syn::TraitBoundModifier::None) {
                        *t = syn::Type::Path(syn::TypePath { qself: None, path: b.path });
                    }
                }
            }
            syn::Type::ImplTrait(o) => pop(&mut o.bounds),
            _ => (),
        }
    }
    fn visit_precise_capture_mut(&mut self, u: &mut syn::PreciseCapture) {
        pop(&mut u.params);
    }
    // `extern fn` is `extern "C" fn`
    fn visit_abi_mut(&mut self, a: &mut syn::Abi) {
        a.name.get_or_insert_with(|| syn::LitStr::new("C", proc_macro2::Span::call_site()));
    }
    // commas around nothing
    fn visit_meta_list_mut(&mut self, m: &mut syn::MetaList) {
        m.tokens = commas(std::mem::take(&mut m.tokens));
    }
    fn visit_block_mut(&mut self, _: &mut syn::Block) {}
}
fn commas(s: TokenStream) -> TokenStream {
    let mut o: Vec<TokenTree> = vec![];
    let comma = |t: Option<&TokenTree>| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == ',');
    for t in s {
        match t {
            TokenTree::Group(g) => o.push(proc_macro2::Group::new(g.delimiter(), commas(g.stream())).into()),
            t if comma(Some(&t)) && (o.is_empty() || comma(o.last())) => (),
            t => o.push(t),
        }
    }
    if comma(o.last()) {
        o.pop();
    }
    o.into_iter().collect()
}
fn flat(s: TokenStream, o: &mut Vec<String>) {
    for t in s {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("<none", "none>"),
                };
                o.push(a.into());
                flat(g.stream(), o);
                o.push(b.into());
            }
            t => o.push(t.to_string()),
        }
    }
}
/// The item in its one form, or None if it is no item. Items of kinds json_parse does not
/// speak of are Some(None).
fn canon(src: &str) -> Option<Option<Vec<String>>> {
    let mut i: syn::Item = syn::parse_str(src).ok()?;
    match i {
        syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Fn(_) => (),
        syn::Item::Verbatim(_) => return None,
        _ => return Some(None),
    }
    Canon.visit_item_mut(&mut i);
    let mut o = vec![];
    flat(i.to_token_stream(), &mut o);
    Some(Some(o))
}

// ---------------------------------------------------------------- the items and the edits

const BASES: &[&str] = &[
    "struct A ;",
    "struct A { }",
    "struct A { a : u8 }",
    "struct A ( u8 ) ;",
    "# [ z ] struct A { # [ y ] pub a : u8 , b : V < u8 > }",
    "pub struct A ( pub u8 , # [ y ( k = 1 ) ] b :: C ) ;",
    "pub ( crate ) struct A < T > where T : X { a : T }",
    "struct A < 'a , T : X + 'a , const N : usize > { a : & 'a T , b : [ u8 ; N ] }",
    "struct A < T : ? Sized > ( & 'static T ) where T : Y ;",
    "struct A where T : Y { }",
    "struct A < T = u8 > { a : Box < dyn X + 'a > , b : ( T , ) }",
    "enum A { }",
    "enum A { B , C }",
    "enum A { B = 1 , C ( u8 ) , D { a : u8 } }",
    "# [ z ] pub enum A < T > where T : X { # [ y ] B ( T , u8 ) }",
    "fn f ( ) { }",
    "fn f ( a : u8 ) { }",
    "pub fn f ( & self , mut a : & u8 ) -> u8 { }",
    "# [ z ] async unsafe fn f < T : X > ( self , _ : T ) -> V < T > where T : Y { a }",
    "pub ( crate ) const extern \"C\" fn f ( a : fn ( u8 ) -> u8 ) { }",
    "fn f ( a : impl X + 'a , b : & mut u8 ) -> impl Fn ( u8 ) -> u8 { }",
    "# [ z = \"s\" ] # [ y ( a , k : 1 , g ( 's' ) ) ] struct A { a : u8 }",
    "struct A { a : It < Item = u8 > , b : :: std :: S , c : Self :: D }",
];
const WORDS: &[&str] = &[
    "u8", "B", "a", "'a", "1", "\"s\"", "'c'", ",", ";", ":", "::", "<", ">", "=", "+", "-", "->", "=>", "&", "&&", "*", "?", "!", "#", "..", "...", "..=", "@", "|", "$", "~", ".", "%", "(", ")", "[", "]", "{", "}", "_", "mut", "ref", "dyn", "impl", "for", "fn", "pub", "crate", "self", "Self", "super", "where", "const", "static", "unsafe", "async", "extern", "type", "struct", "enum", "union", "as", "in", "box", "auto", "default", "Sized", "move", "use", "mod", "trait", "safe", "raw", "macro_rules", "true", "0x10", "1.5", "r#struct", "b'x'", "1_0",
];
const PHRASES: &[&str] = &[
    "for < 'a >", "< T as X > :: Y", "< T > :: Y", "* const u8", "* mut u8", "& u8", "& 'a", "& mut", "& dyn X", "dyn X", "impl X", "! ", "( )", "[ ]", "{ }", "( u8 )", "( B )", "[ u8 ]", "[ u8 ; 1 ]", "{ 1 }", "- 1", "1 + 1", "0x10", "{ a }", "< >", "< u8 >", "< T >", "< 'a >", "< { 1 } >", "< - 1 >", "< Item : X >", "< const N : usize >", "< T = u8 >", ":: < u8 >", ":: x", "x ::", "crate :: x", "self :: x", "super :: x", "x ! ( )", "x ! { }", "x ! [ ]", "# [ x ]", "# ! [ x ]", "# [ x = 1 ]", "# [ x = - 1 ]", "# [ x = 0x1 ]", "# [ x = a ]", "# [ x = a ! ( ) ]", "# [ x = 1 + 1 ]", "# [ x ( ) ]", "# [ x ( a , ) ]", "# [ x ( a , , b ) ]", "# [ x ( a b ) ]", "# [ x ( = ) ]", "# [ x ( a = b ) ]", "# [ x ( ( a ) ) ]", "# [ x ( a ( b ) c ) ]", "# [ x [ a ] ]", "# [ x { a } ]", "# [ x ( a [ b ] ) ]", "# [ x ( ! a ) ]", "# [ :: x ]", "# [ x :: y ]", "# [ x :: y ( a = 1 ) ]", "# [ unsafe ( x ) ]", "# [ x ( :: a ) ]", "# [ x ( a :: b = 1 ) ]", "# [ x ( r#a ) ]", "# [ x ( 'a ) ]", "# [ x ( - a ) ]", "# [ x ( 1 2 ) ]", "# [ x ( a = ) ]", "# [ x ( a => b ) ]", "# [ x ( a == 1 ) ]", "# [ r#fn ]", "# [ x ( true = 1 ) ]", "# [ x ( a < b > ) ]", "# [ x ( a . b ) ]", "= u8", "= 1", "= 0x10", "= - 1", "= 1u8", "= 1 + 1", "= a", "= 'c'", "= { 1 }", "= b'x'", "= 1_0", "= ! 0", "= a :: B", "= 9223372036854775808", "= 170141183460469231731687303715884105727", ": u8", ": Sized", ": ? Sized", ": X", ": ~ const X", ": X + Y", ": 'a", ": for < 'b > X < 'b >", ": ( X )", ": ?  X", "+ X", "+ 'a", "+ ? Sized", "+ Sized", "+ Fn ( u8 )", "+ use < 'a , T >", "where T : X", "where T : Sized", "where V < T > : X", "where & 'a T : X", "where 'a : 'b", "where for < 'b > T : X < 'b >", "where", "where T : X + Y , U : Z", "where T :", "where T : ? Sized", "where ( ) : X", "where [ T ] : X", "where Self : X", "where T :: Item : X", "a : u8", "a : u8 ,", ", a : u8", "pub a : u8", "pub ( self )", "pub ( in a )", "pub ( a )", "pub ( super )", "a :", "ref a", "ref mut a", "mut a : u8", "mut self", "& self", "& 'a self", "& mut self", "& 'a mut self", "self : B", "self : & Self", "mut self : B", "( a , b ) : B", "B ( a ) : B", "B { a , b } : B", "[ a , b ] : B", "& a : & u8", "& mut a : u8", "a @ _ : u8", "_ : u8", "1 : u8", "a | b : u8", ".. : u8", "# [ x ] a : u8", "# [ x ] self", "... ", "a : ...", "-> u8", "-> ( )", "-> !", "-> impl X", "-> impl X + Y", "-> & 'a u8", "-> [ u8 ; { 1 } ]", "-> < T as X > :: Y", "-> * const u8", "-> dyn X", "-> Self :: B", "extern", "extern \"C\"", "unsafe extern \"C\"", "async move", "const async", "fn ( )", "unsafe fn ( )", "extern \"C\" fn ( )", "extern fn ( u8 )", "for < 'a > fn ( & 'a u8 )", "fn ( a : u8 , ... )", "fn ( # [ x ] u8 )", "fn ( ) -> !", "Fn ( u8 )", "Fn ( ) -> u8", "FnMut ( & u8 ) -> & u8", "dyn Fn ( u8 ) -> u8 + 'a", "dyn for < 'a > X", "dyn ( X ) + Y", "impl for < 'a > Fn ( & 'a u8 )", "impl ? Sized", "impl X + ? Sized", "& ( dyn X + Y )", "& ( impl X + 'a )", "& & u8", "& 'a & 'b u8", "& [ u8 ]", "& ( )", "& ! ", "& fn ( )", "& * const u8", "( & u8 , )", "V < & u8 , 'a >", "V < ! >", "V < [ u8 ; 1 ] >", "V < * const u8 >", "V < dyn X + Y >", "V < fn ( ) >", "V < A = B , C = D >", "V < A < 'a > = B >", "V < A : X >", "V < { 1 } , 2 , - 3 >", "V < { } >", "V < impl X >", "V < V < V < u8 > > >", "V < u8 > :: W < u8 >", "V :: < u8 >", "V < < T as X > :: Y >", "V < ( A , B ) > ", "V < true >", "V < 'c' >", "V < A , >", "_", "B !", "{ let x = 1 ; }", "{ } fn g ( ) { }", "{ } ;", "; struct B ;", "union", "static", "type", "macro",
];

fn words(s: &str) -> Vec<&str> {
    s.split_whitespace().collect()
}
/// Every edit of `base` as (first token, number of tokens replaced, phrase).
fn edits(base: &[&'static str], ins: &[&'static str]) -> Vec<(usize, usize, &'static str)> {
    let n = base.len();
    let mut v = vec![(0, 0, "")];
    for at in 0..=n {
        for k in 0..=3.min(n - at) {
            if k > 0 {
                v.push((at, k, ""));
            }
            for p in ins {
                v.push((at, k, *p));
            }
        }
    }
    // a run of tokens written twice, or moved behind the next run
    for at in 0..n {
        for k in 1..=6.min(n - at) {
            v.push((at, k, "\u{1}twice"));
            if at + 2 * k <= n {
                v.push((at, k, "\u{1}swap"));
            }
        }
    }
    v
}
fn apply(base: &[&str], (at, k, p): (usize, usize, &str)) -> Vec<String> {
    let own = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut v = own(&base[..at]);
    match p {
        "\u{1}twice" => {
            v.extend(own(&base[at..at + k]));
            v.extend(own(&base[at..]));
        }
        "\u{1}swap" => {
            v.extend(own(&base[at + k..at + 2 * k]));
            v.extend(own(&base[at..at + k]));
            v.extend(own(&base[at + 2 * k..]));
        }
        _ => {
            v.extend(own(&words(p)));
            v.extend(own(&base[at + k..]));
        }
    }
    v
}

/// Places for tokens: name, what stands before and after, the tokens, how many (quick, thorough).
const HOLES: &[(&str, &[(&str, &str)], &[&str], u32, u32)] = &[
    ("group", &[("# [ x (", ") ] struct A ;")], &["a", "1", "\"s\"", "'c'", "true", "=", ":", "-", ",", "( )", "( b )", "[ b ]", "{ b , c }", "r#x", "!", "."], 4, 5),
    ("value", &[("# [ x =", "] struct A ;"), ("enum A { B =", "}"), ("struct A { a : [ u8 ;", "] }"), ("struct A < const N : u8 =", "> ;")], &["a", "1", "0x1", "1_0", "1u8", "'c'", "true", "-", "!", "+", "( 1 )", "{ 1 }", "[ 1 ]", "::", "=", "&", "b'x'", "9223372036854775808"], 4, 5),
    ("meta", &[("# [", "] struct A ;"), ("struct A { # [", "] a : u8 }"), ("enum A { # [", "] B }")], &["a", "b", "r#c", "1", "true", "=", ":", "::", "-", "( a )", "[ a ]", "{ a }", "( )", "unsafe", "crate", ","], 4, 5),
    ("head", &[("", "struct A ;"), ("", "enum A { }"), ("", "fn f ( ) { }")], &["pub", "( crate )", "( in a )", "( self )", "# [ x ]", "# [ y ( 1 ) ]", "async", "const", "unsafe", "extern", "\"C\"", "crate", "safe", "/// d\n", "default", "union"], 4, 5),
    ("fields", &[("struct A {", "}"), ("struct A {", ", z : u8 }"), ("enum A { B {", "} }")], &["pub", "( crate )", "( u8 )", "a", "r#b", ":", "::", "u8", "# [ x ]", ",", "&", "'a", "<", ">", "=", "_", "mut", "1"], 4, 5),
    ("tuple", &[("struct A (", ") ;"), ("enum A { B (", ") , C }"), ("struct A < T > ( u8 ,", ") where T : X ;")], &["pub", "( crate )", "( in a )", "( u8 , u8 )", "[ u8 ]", "u8", "# [ x ]", ",", "&", "'a", "<", ">", "::", "mut", "dyn", "+"], 4, 5),
    ("type", &[("struct A { a :", "}"), ("fn f ( ) ->", "{ }"), ("fn f ( a :", ") { }"), ("struct A ( V <", "> ) ;")], &["&", "'a", "mut", "dyn", "impl", "+", "X", "<", ">", "::", "( u8 )", "( )", "[ u8 ]", "*", "const", "!", "fn", "->", "for", "Fn", "?", "1", "_", "=", ",", ":", "{ 1 }", "as"], 4, 5),
    ("params", &[("fn f (", ") { }"), ("fn f ( x : u8 ,", ") { }")], &["a", "_", "mut", "ref", "&", "self", "Self", "'a", ":", "u8", "( a )", "[ a ]", "{ a }", "..", "...", "@", "|", "-", "1", "::", "<", ">", "# [ x ]", ",", "box", "'c'"], 4, 5),
    ("generics", &[("struct A <", "> ;"), ("fn f <", "> ( ) { }")], &["T", "'a", "const", ":", "=", "+", "?", "Sized", "X", "u8", "<", ">", "1", "{ 1 }", ",", "-", "::", "( )", "# [ x ]", "for", "~"], 4, 5),
    ("where", &[("struct A < T > where", ";"), ("enum A < T > where", "{ B }"), ("fn f < T > ( ) where", "{ }"), ("fn f < T > ( ) -> T where", "{ }"), ("struct A < T > ( T ) where", ";")], &["T", "U", "'a", ":", "=", "+", "?", "Sized", "X", "<", ">", ",", "::", "( )", "[ T ]", "&", "for", "Self", "Fn ( T ) -> T"], 4, 5),
    ("variants", &[("enum A {", "}"), ("enum A { Z ,", "}")], &["B", "C", "r#d", "=", "1", "-", "( u8 )", "( )", "{ a : u8 }", "{ }", ",", "# [ x ]", "pub", "0x1", "+", "!", "[ u8 ]", "( crate )"], 4, 5),
    ("tail", &[("struct A", ""), ("enum A", ""), ("fn f", ""), ("fn f ( )", ""), ("struct A < T >", ""), ("union A", ""), ("", "")], &["( )", "( u8 )", "{ }", "{ a : u8 }", ";", "<", ">", "T", "->", "u8", "where", ":", "X", "!", "=", "struct", "A", "enum", "fn", "impl", "for", "mod", "use", "const", "static", "type", "trait", "extern", "crate", "macro_rules", "m ! { }"], 4, 5),
];

/// Types json_parse has no place for.
const EXOTIC: &[&str] = &[
    "*const u8", "*mut T", "!", "_", "for<'a> fn(&'a u8)", "unsafe fn()", "extern fn()", "extern \"C\" fn(u8) -> u8", "fn() -> !", "fn(a: u8, ...)", "<T as X>::Y", "<T>::Y", "<T as a::X<u8>>::Y<u8>", "&&u8", "&'a &'b mut u8", "&dyn X", "&mut dyn X", "&'a (dyn X + 'a)", "&[u8]", "&()", "&fn()", "&*const u8", "&V<u8>::Y", "m!()", "m![u8; 1]", "m!{}", "V<{ 1 }>", "V<-1>", "V<{ N }, 1>", "V<A: X>", "V<A: X + Y>", "V<A<'a> = u8>", "V<A = 1>", "V::<u8>", "V<!>", "V<_>", "V<*const u8>", "V<'a>", "V<>", "V<u8,>", "Fn(u8) -> u8", "a::Fn(u8) -> V<u8>", "F(u8)", "F() -> u8", "dyn for<'a> X<'a>", "for<'a> X<'a>", "dyn (X)", "dyn (X) + Y", "dyn ?Sized + X", "dyn 'a + X", "impl for<'a> Fn(&'a u8) -> &'a u8", "impl ?Sized", "impl X + ?Sized", "impl (X)", "impl X + use<'a, T>", "impl 'a + X", "dyn*const", "(u8)", "((u8))", "()", "(u8,)", "(!, *const u8)", "[*const u8; 2]", "[u8; { 1 }]", "[u8; N + 1]", "[u8; V::<u8>::N]", "[!]", "Self", "self::A", "super::super::A", "crate::A", "r#struct", "dyn", "union", "auto", "async", "V<V<V<V<u8>>>>", "V<fn() -> V<u8>>", "V<dyn Fn() -> V<u8>>", "std::ops::Fn(u8)", "dyn std::ops::Fn(&'_ u8) -> (u8, u8) + Send + 'static", "V<A = dyn X, B = impl Y>", "V<'static, 'a, T, 1, A = u8>", "[[u8; 1]; 2]", "&'a [&'a T]", "&mut [V<u8>]", "pin u8", "dyn X + ", "u8 + 'a", "X + Y", "&X + Y", "typeof(u8)", "\"s\"", "1", "'a", "V<\"s\">", "V<'c'>", "V<1u8, true>", "::V", "::a::V<::b::W>", "a::<u8>::B", "V<u8>::W<u8>::X",
];
const PLACES: &[(&str, &str)] = &[
    ("struct A { a:", "}"), ("struct A { pub a: u8, # [ x ] b:", ", c: u8 }"), ("struct A(", ");"), ("struct A(u8, pub", ", u8) where T: X;"), ("enum A { B(", "), C }"), ("enum A { B { a:", "} = 1 }"), ("fn f(a:", ") {}"), ("fn f(self, mut a:", ", b: u8) -> u8 {}"), ("fn f() ->", "{}"), ("fn f() ->", "where T: X {}"), ("struct A<T =", ">;"), ("struct A<T: X +", ">;"), ("struct A<T> where T: X<", ">;"), ("struct A<T> where", ": X;"), ("struct A<T> where T:", ", U: X { a: u8 }"), ("fn f<T>(a: T) -> T where T:", "{}"), 
];

/// Forms made of smaller forms: atoms, and what is put around one, `~` standing for the inner.
type Zoo = (&'static str, &'static str, &'static [&'static str], &'static [&'static str], &'static [(&'static str, &'static str)]);
const ZOOS: &[Zoo] = &[
    (
        "patterns",
        "patterns in the place of a parameter's name",
        &["a", "_", "..", "r#b", "mut a", "ref a", "ref mut a", "1", "-1", "1..=2", "..=3", "4..", "\"s\"", "true", "B", "a::B", "<T as X>::Y", "<T>::Y", "m!()", "m![a]", "m!{a}", "()", "const { 1 }", "B {}", "B { .. }", "B { a, .. }", "B { ref a, mut b }", "B()", "[]", "self", "'c'", "B::<u8>"],
        &["(~)", "(~,)", "(~, a)", "(a, ..,  ~)", "[~]", "[a, ~]", "[~, ..]", "&~", "&mut ~", "&&~", "x @ ~", "ref x @ ~", "ref mut x @ ~", "mut x @ ~", "B(~)", "a::B(~)", "B(a, ~)", "::a::B(~)", "B::<u8>(~)", "<T as X>::Y(~)", "B { a: ~ }", "B { a: ~, .. }", "B { # [x] a: ~ }", "a::B { 0: ~ }", "~ | B", "| ~", "(~ | B(a))", "# [x] ~", "box ~"],
        &[("fn f(", ": u8) {}"), ("fn f(z: V<u8>,", ": a::B) -> u8 {}"), ("fn f(self,", ": (u8, u8), mut y: u8) where T: X {}"), ("fn f(# [x]", ": &u8) {}")],
    ),
    (
        "exprs",
        "expressions in the places of a discriminant, an array length, a const default and a const argument",
        &["1", "0x1f", "0b1", "0o7", "1_0", "1u8", "-1", "1.5", "'c'", "b'x'", "\"s\"", "b\"s\"", "true", "N", "a::N", "Self::N", "<T as X>::N", "V::<u8>::N", "m!()", "m![1]", "m!{1}", "()", "{}", "{ 1 }", "unsafe { 1 }", "const { 1 }", "loop {}", "return", "break", "f()", "a.b", "a.b()", "a[1]", "B { a: 1 }", "B {}", "[]", "[1; 2]", "|x| x", "||1", "async {}", "9223372036854775807", "9223372036854775808", "170141183460469231731687303715884105727", "340282366920938463463374607431768211455", ".."],
        &["(~)", "-~", "!~", "--~", "- -~", "*~", "&~", "&mut ~", "~ + 1", "1 + ~", "~ as u8", "~ << 1", "~ == 1", "~ && true", "~..1", "~..=1", "[~]", "[~; 1]", "(~,)", "(~, 1)", "{ ~ }", "{ let x = ~; x }", "if true { ~ } else { 1 }", "if ~ == 1 { 1 } else { 2 }", "match ~ { _ => 1 }", "f(~)", "B(~)", "B { a: ~ }", "~?", "~.a", "~.f()", "~[0]", "m!(~)", "|x| ~", "# [x] ~", "x = ~", "&raw const ~"],
        &[("enum A { B =", "}"), ("enum A { B, C =", ", D }"), ("enum A { B(u8) =", ", C { a: u8 } = 1 }"), ("struct A { a: [u8;", "] }"), ("struct A([V<u8>;", "], u8);"), ("fn f(a: [u8;", "]) -> u8 {}"), ("fn f() -> [u8;", "] {}"), ("struct A<const N: u8 =", ">;"), ("struct A<T, const N: u8 =", ", U = u8>;"), ("struct A(V<", ">);"), ("fn f(a: V<u8,", ">) {}")],
    ),
    (
        "bounds",
        "bounds of parameters, of where predicates and of dyn and impl types",
        &["X", "a::X", "::a::X", "X<u8>", "X<'a>", "X<I = u8>", "X<I: Y>", "X<'a, T, 1, I = u8>", "X::<u8>", "X<u8>::Y", "Fn(u8)", "Fn()", "Fn(u8) -> u8", "FnMut(&u8) -> &u8", "FnOnce(u8, T) -> V<u8>", "a::Fn(u8) -> (u8, u8)", "F(u8)", "'a", "'static", "'_", "?Sized", "?X", "Sized", "a::Sized", "?a::Sized", "~const X", "const X", "async Fn()", "use<'a, T>", "use<>", "!X", "Self", "self::X", "super::X", "crate::X", "m!()", "fn()"],
        &["(~)", "for<'b> ~", "for<> ~", "(for<'b> ~)", "~ + Y", "Y + ~", "~ +", "Y + ~ + Z", "'b + ~", "~ + 'b", "?Sized + ~", "~ + ?Sized", "Y<Z> + ~ + 'b", "~ + ~"],
        &[("struct A<T:", ">;"), ("struct A<T:", "= u8>;"), ("struct A<'b, U: Y, T:", ", W> { a: T }"), ("struct A<'b:", ">;"), ("enum A<T:", "> { B(T) }"), ("fn f<T:", ">(a: T) -> T {}"), ("struct A<T> where T:", ";"), ("struct A<T> where U: Y, T:", ", W: Z { a: T }"), ("fn f<T>() -> T where T:", "{}"), ("fn f<T>() -> u8 where T:", ", {}"), ("struct A(V<dyn", ">);"), ("struct A { a: dyn", ", b: u8 }"), ("fn f(a: impl", ") {}"), ("fn f() -> impl", "{}"), ("fn f(a: &'b dyn", ") {}"), ("enum A<T> where T:", "{ B }")],
    ),
    (
        "attrs",
        "attributes",
        &["x", "r#fn", "x::y", "::x", "crate::x", "self::x", "unsafe(x)", "x()", "x(a)", "x(a,)", "x(,)", "x(a,, b)", "x(a b)", "x(a = 1)", "x(a = -1)", "x(a: 1)", "x(a = b)", "x(a == 1)", "x(a => 1)", "x(a::b)", "x(a::b = 1)", "x(1)", "x(-1)", "x(- 1.5)", "x(--1)", "x(\"s\")", "x('c')", "x('a)", "x(true)", "x(-true)", "x(-a)", "x(a(b))", "x(a(b)(c))", "x(a(b) c)", "x(a[b])", "x(a{b})", "x((a))", "x([a])", "x(a.b)", "x(a!())", "x(*)", "x(..)", "x[a]", "x{a}", "x = 1", "x = -1", "x = 1 + 1", "x = a", "x = a!()", "x = \"s\"", "x = [1]", "x = (1)", "x = !0", "x = -1.5", "x = --1", "x : 1", "x = 0x1", "x = 1u8", "x = 'c'", "x = b\"s\"", "x = c\"s\"", "x = true", "x = &1", "x(_)", "_", "x(a = (1))", "x(a = 1 + 1)", "x(a = [1])", "x(# [y])", "x(a = 1 2)", "x(1 2)", "x(r#a = 1)", "x(self)", "x(crate::a)", "x(::a)", "x(a::)", "x(a::b(c))", "x::y(a)", "x::y = 1", "cfg(not(a = \"b\"))", "x(if)", "x($a)", "x(a;b)", "x(a/b)", "x(@)"],
        &["g(~)", "g(a, ~)", "g(~, a = 1)", "g(h(~))", "g(a = 1, h(b, ~), c)", "cfg_attr(a, ~)", "unsafe(~)", "~] # [z", "z] # [~"],
        &[("# [", "] struct A;"), ("# [", "] pub enum A { B }"), ("# [", "] fn f() {}"), ("struct A { # [", "] pub a: u8 }"), ("struct A(# [", "] u8);"), ("enum A { # [", "] B, C }"), ("enum A { B { # [", "] a: u8 } }"), ("enum A { B(u8, # [", "] u8) = 1 }"), ("struct A<# [", "] T>;"), ("fn f(# [", "] a: u8) {}"), ("struct A<T> where # [", "] T: X;"), ("fn f() { # ! [", "] }")],
    ),
];
pub fn c27(run: &mut Run) {
    run.assumptions.push("what is Rust is what syn 2.0.119 parses as an item (rustc itself prints the tokens `1 . 1` as the number 1.1: they do not occur); two items are the same if they are the same tokens after bounds are put into the order traits, lifetimes, ?Sized and empty <>, empty where clauses and the last commas of lists are left out".into());
    let prog = Prog::new();
    let pool = Pool::new(|| prog.command());
    derives(run);
    let ins: Vec<&'static str> = WORDS.iter().chain(PHRASES).cloned().collect();
    let bases: Vec<Vec<&'static str>> = BASES.iter().map(|b| b.split_whitespace().collect()).collect();
    for (i, b) in bases.iter().enumerate() {
        let es = edits(b, &ins);
        run.family(
            &format!("edits-{}", i),
            &format!("every edit of `{}`", b.join(" ")),
            es.len() as u64,
            |i, o| {
                let s = apply(b, es[i as usize]).join(" ");
                if canon(&s).is_none() {
                    return false;
                }
                o.extend_from_slice(s.as_bytes());
                true
            },
            |p| String::from_utf8_lossy(p).into_owned(),
            |p, t: &mut Tally| judge(&pool, p, t),
        );
    }
    for (name, around, alphabet, quick, thorough) in HOLES {
        let (n, k) = (if run.thorough { *thorough } else { *quick }, alphabet.len() as u64);
        let seqs: u64 = (0..=n).map(|i| k.pow(i)).sum();
        run.family(
            &format!("hole-{}", name),
            &format!("every sequence of up to {} of {} tokens in {}", n, k, around.iter().map(|(a, b)| format!("`{} … {}`", a, b)).collect::<Vec<_>>().join(", ")),
            seqs * around.len() as u64,
            |i, o| {
                let (a, b) = around[(i % around.len() as u64) as usize];
                let mut r = i / around.len() as u64;
                let mut len = 0;
                while r >= k.pow(len) {
                    r -= k.pow(len);
                    len += 1;
                }
                let mut s = a.to_string();
                for _ in 0..len {
                    s.push(' ');
                    s.push_str(alphabet[(r % k) as usize]);
                    r /= k;
                }
                s.push(' ');
                s.push_str(b);
                if canon(&s).is_none() {
                    return false;
                }
                o.extend_from_slice(s.as_bytes());
                true
            },
            |p| String::from_utf8_lossy(p).into_owned(),
            |p, t: &mut Tally| judge(&pool, p, t),
        );
    }
    // a type no form fits, alone and inside one or two forms that fit
    let exotic: Vec<Ty> = EXOTIC.iter().map(|t| Ty::text(t.to_string())).collect();
    let one = wrapped(&exotic);
    let two = if run.thorough { wrapped(&one) } else { wrapped(&one.iter().step_by(11).cloned().collect::<Vec<_>>()) };
    let types: Vec<String> = exotic.iter().chain(&one).chain(&two).map(|t| t.src.clone()).collect();
    let np = PLACES.len() as u64;
    run.family(
        "types",
        &format!("types json_parse has no place for, alone, in every type form and in two of them{}, in every place of a type", if run.thorough { "" } else { " (every 11th)" }),
        types.len() as u64 * np,
        |i, o| {
            let (a, b) = PLACES[(i % np) as usize];
            let s = format!("{} {} {}", a, types[(i / np) as usize], b);
            if canon(&s).is_none() {
                return false;
            }
            o.extend_from_slice(s.as_bytes());
            true
        },
        |p| String::from_utf8_lossy(p).into_owned(),
        |p, t: &mut Tally| judge(&pool, p, t),
    );
    for (name, what, atoms, around, places) in ZOOS {
        let mut forms: Vec<String> = atoms.iter().map(|x| x.to_string()).collect();
        let wrap = |v: &[String]| v.iter().flat_map(|x| around.iter().map(|w| w.replace('~', x)).collect::<Vec<_>>()).collect::<Vec<String>>();
        let one = wrap(&forms);
        let two = wrap(&if run.thorough { one.clone() } else { one.iter().step_by(7).cloned().collect::<Vec<_>>() });
        forms.extend(one);
        forms.extend(two);
        let np = places.len() as u64;
        run.family(
            name,
            &format!("{}: {} forms, alone, in each of {} forms around them and in two of those{}, in {} places", what, atoms.len(), around.len(), if run.thorough { "" } else { " (every 7th)" }, np),
            forms.len() as u64 * np,
            |i, o| {
                let (a, b) = places[(i % np) as usize];
                let s = format!("{} {} {}", a, forms[(i / np) as usize], b);
                if canon(&s).is_none() {
                    return false;
                }
                o.extend_from_slice(s.as_bytes());
                true
            },
            |p| String::from_utf8_lossy(p).into_owned(),
            |p, t: &mut Tally| judge(&pool, p, t),
        );
    }
    // a second edit of every item one edit away
    let mut firsts: Vec<Vec<String>> = vec![];
    if run.mode != Mode::Replay {
        for b in bases.iter().filter(|b| b.len() < if run.thorough { 30 } else { 14 }) {
            let all: Vec<Vec<String>> = edits(b, &ins).into_iter().map(|e| apply(b, e)).collect();
            let ok: Vec<bool> = par(&all, |s| canon(&s.join(" ")).is_some());
            firsts.extend(all.into_iter().zip(ok).filter(|x| x.1).map(|x| x.0));
        }
        firsts.sort();
        firsts.dedup();
    }
    let step = if run.thorough { 1 } else { 8 };
    let firsts: Vec<Vec<String>> = firsts.into_iter().step_by(step).collect();
    let most = firsts.iter().map(|x| x.len()).max().unwrap_or(0) as u64 + 1;
    let ns = SECOND.len() as u64;
    run.family(
        "second",
        &format!("a second edit (one of {} phrases put in or put for a token) of {} item one edit away from an item", ns, if step == 1 { "every".into() } else { format!("every {}th", step) }),
        firsts.len() as u64 * most * 2 * ns,
        |i, o| {
            let f = &firsts[(i / (most * 2 * ns)) as usize];
            let at = (i / (2 * ns) % most) as usize;
            let k = (i / ns % 2) as usize;
            if at + k > f.len() {
                return false;
            }
            let b: Vec<&str> = f.iter().map(|x| &x[..]).collect();
            let s = apply(&b, (at, k, SECOND[(i % ns) as usize])).join(" ");
            if canon(&s).is_none() {
                return false;
            }
            o.extend_from_slice(s.as_bytes());
            true
        },
        |p| String::from_utf8_lossy(p).into_owned(),
        |p, t: &mut Tally| judge(&pool, p, t),
    );
}
/// Items the derives have no implementation for.
const UNDERIVABLE: &[&str] = &[
    "struct A;", "struct A();", "struct A(u8);", "pub struct A(pub u8, String);", "struct A<T>(T);", "struct A<T>(T) where T: Clone;", "enum A {}", "enum A { B }", "enum A { B(u8), C { a: u8 } }", "enum A<T> { B(T), C }", "#[repr(u8)] pub(crate) enum A { B = 1, C = 2 }", "enum A { B { a: u8 } }", "union A { a: u8 }", "union A { a: u8, b: i8 }",
    "struct A { #[key = 1] a: u8 }", "struct A { #[key = 'c'] a: u8 }", "struct A { #[key = 1.5] a: u8 }", "struct A { #[key = true] a: u8 }", "struct A { #[key = b\"x\"] a: u8 }", "struct A { #[key = c\"x\"] a: u8 }", "struct A { #[key = b'x'] a: u8 }", "struct A { #[key = -1] a: u8 }", "struct A { z: u8, #[key = 0x10] a: u8 }", "struct A { #[key = 5000000000u64] a: u8, #[key = \"k\"] b: u8 }",
    "struct A { a: *const u8 }", "struct A { a: std::rc::Rc<u8> }", "struct A { a: u8, b: std::time::Duration }", "struct A { a: std::collections::BTreeMap<u8, u8> }",
];
fn derives(run: &mut Run) {
    let kit = Kit::new();
    let ext = vec![kit.art("json"), kit.art("json_derive")];
    let n = std::sync::atomic::AtomicUsize::new(0);
    run.family(
        "derives",
        "JsonEncode and JsonDecode on tuple and unit structs, enums, unions, fields with keys that are no strings and fields of types without an implementation: no such program compiles; without the derive each one does",
        UNDERIVABLE.len() as u64 * 2,
        |i, o| {
            let item = UNDERIVABLE[(i / 2) as usize];
            o.extend_from_slice(format!("{}\u{1}{}", ["JsonEncode", "JsonDecode"][(i % 2) as usize], item).as_bytes());
            true
        },
        |p| String::from_utf8_lossy(p).replace('\u{1}', ": "),
        |p, t: &mut Tally| {
            let s = String::from_utf8_lossy(p).into_owned();
            let (d, item) = s.split_once('\u{1}').unwrap();
            let k = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let with = format!("use json::{};\n#[derive({})]\n{}\n", d, d, item);
            // the key attribute belongs to the derive
            let mut bare = item.to_string();
            while let Some(a) = bare.find("#[key") {
                let b = a + bare[a..].find(']').unwrap() + 1;
                bare.replace_range(a..b, "");
            }
            if let Err(e) = kit.compile(&format!("n{}", k), &bare, "lib", &ext) {
                panic!("does not compile without the derive: {}: {}", item, e);
            }
            t.calls += 1;
            match kit.compile(&format!("d{}", k), &with, "lib", &ext) {
                Ok(_) => fail("a derive the library has no meaning for compiles", "an error from the derive", format!("#[derive({})] {}", d, item)),
                Err(_) => {
                    t.validated += 1;
                    Ok(())
                }
            }
        },
    );
}
const SECOND: &[&str] = &[
    "", "B", ",", ":", "::", "<", ">", "=", "+", "&", "'a", "mut", "dyn", "impl", "?", "!", "*", "pub", "where", "const", "unsafe", "_", "1", "{ }", "( )", "( u8 )", "[ u8 ]", "# [ x ]", "# [ x ( a = 1 ) ]", "= 1", "= u8", ": X", ": 'a", "+ X", "+ ? Sized", "where T : X", "a : u8 ,", ", a : u8", "-> u8", "< T >", "< 'a , T : X >", ":: B", "a ::", "for < 'a >", "& 'a", "V < u8 >", "Fn ( u8 ) -> u8", "T : Sized ,", "crate", "self",
];
fn par<T: Sync, R: Send>(v: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let n = (v.len() + 7) / 8;
    std::thread::scope(|s| {
        let hs: Vec<_> = v.chunks(n.max(1)).map(|c| s.spawn(|| c.iter().map(&f).collect::<Vec<R>>())).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}
fn judge<F: Fn() -> std::process::Command + Sync>(pool: &Pool<F>, p: &[u8], t: &mut Tally) -> Result<(), crate::engine::Fail> {
    let s = String::from_utf8_lossy(p).into_owned();
    let want = canon(&s).unwrap();
    t.calls += 1;
    let got = pool.ask(&format!("print\u{1}{}\u{1}\u{1}", s))?;
    let r = match got.strip_prefix("text: ") {
        None if got.starts_with("refused: ") => return Ok(()),
        None => fail("json_parse panics over a valid item", "an item or an error", got),
        Some(text) => match (canon(text), want) {
            (_, None) => fail("an item that is no struct, enum or function is accepted", "an error", text),
            (None, _) => fail("the printed item is not Rust", s, text),
            (Some(None), _) => fail("the printed item is another kind of item", s, text),
            (Some(Some(a)), Some(b)) if a != b => fail("the printed item is another item", s, text),
            _ => {
                t.validated += 1;
                Ok(())
            }
        },
    };
    if std::env::var("ALL_BAD").is_ok() {
        if let Err(e) = &r {
            eprintln!("BAD {} | {} | {}", e.what, String::from_utf8_lossy(p), e.got);
            return Ok(());
        }
    }
    r
}
