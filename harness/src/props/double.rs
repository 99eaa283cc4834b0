//! C22: #[double].  The source of the macro is executed on token streams.
use super::util::*;
use crate::double_src::double;
use proc_macro2::TokenStream;
use std::str::FromStr;

fn ts(s: &str) -> TokenStream { TokenStream::from_str(s).unwrap() }
/// A name, and what doubling replaces it with
struct Id { real: String, mock: String }
fn id(real: String, upper: bool) -> Id { Id { mock: (if upper { "Mock" } else { "mock_" }).to_string() + real.trim_start_matches("r#"), real } }
/// A name with any first letter
fn letter(n: &str, rest: &str) -> Id {
    let c = any_u8(n);
    assume((c >= b'A') & (c <= b'Z') | (c >= b'a') & (c <= b'z'));
    let mut s = String::new();
    s.push(c as char);
    s.push_str(rest);
    id(s, c <= b'Z')
}
/// A name of any two letters, digits or underscores
fn pair() -> Id {
    let (c, d) = (any_u8("c"), any_u8("d"));
    assume((c >= b'A') & (c <= b'Z') | (c >= b'a') & (c <= b'z'));
    assume((d >= b'A') & (d <= b'Z') | (d >= b'a') & (d <= b'z') | (d >= b'0') & (d <= b'9') | (d == b'_'));
    let mut s = String::new();
    s.push(c as char);
    s.push(d as char);
    s.push_str("q");
    id(s, c <= b'Z')
}
/// One of some names
fn some(n: &str) -> Id {
    const NAMES: [(&str, bool); 12] = [("Foo", true), ("foo", false), ("F", true), ("fOO", false), ("_foo", false), ("_Foo", false), ("Éa", true), ("éA", false), ("Ωm", true),
        ("r#async", false), ("MockFoo", true), ("mock_foo", false)];
    let (s, u) = NAMES[choose(12, n) as usize];
    id(s.to_string(), u)
}
/// The tokens, without regard to how they are spaced
fn flat(t: TokenStream, o: &mut String) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => { o.push_str(match g.delimiter() { proc_macro2::Delimiter::Parenthesis => "( ", proc_macro2::Delimiter::Brace => "{ ", proc_macro2::Delimiter::Bracket => "[ ", _ => "" }); flat(g.stream(), o); o.push_str("end "); }
            x => { o.push_str(&x.to_string()); o.push(' '); }
        }
    }
}
/// The same, whatever the order of the items and of their attributes
fn same_items(real: &TokenStream, mock: &TokenStream, out: TokenStream) -> bool {
    use quote::ToTokens;
    let items = match syn::parse2::<syn::File>(out) { Ok(f) => f.items, Err(_) => return false };
    let (mut reals, mut mocks) = (0, 0);
    let plain = |t: TokenStream| { let mut o = String::new(); flat(t, &mut o); o };
    for mut i in items {
        let attrs = match &mut i { syn::Item::Use(u) => &mut u.attrs, syn::Item::Type(t) => &mut t.attrs, _ => return false };
        let n = attrs.len();
        attrs.retain(|a| plain(a.to_token_stream()) != "# [ cfg ( test end end ");
        let m = attrs.len() < n;
        attrs.retain(|a| plain(a.to_token_stream()) != "# [ cfg ( not ( test end end end ");
        if attrs.len() + 1 != n { return false; }
        if m { mocks += 1 } else { reals += 1 }
        let x = match syn::parse2::<syn::Item>(if m { mock.clone() } else { real.clone() }) { Ok(x) => x, Err(_) => return false };
        if plain(i.to_token_stream()) != plain(x.to_token_stream()) { return false; }
    }
    reals == 1 && mocks == 1
}
/// What is in front of an import, and of its name
fn around(wide: bool) -> (&'static str, &'static str) {
    if !wide { return ("", ["m::", "crate::Foo::"][choose(2, "root") as usize]); }
    let k = choose(15, "around") as usize;
    if k < 8 { (PRE[k], "m::") } else { ("", ROOT[k - 8]) }
}
fn doubles(code: &str, expected: &str) {
    let (mut out, mut e) = (String::new(), String::new());
    flat(double(TokenStream::new(), ts(code)), &mut out);
    flat(ts(&format!("#[cfg(not(test))] {} #[cfg(test)] {}", code, expected)), &mut e);
    if out != e { check(same_items(&ts(code), &ts(expected), double(TokenStream::new(), ts(code))), "a doubled item denotes the mock under test and the original otherwise"); return; }
    check(out == e, "a doubled item denotes the mock under test and the original otherwise");
}
const PRE: [&str; 8] = ["", "pub ", "pub(crate) ", "pub(in crate::a) ", "#[allow(unused)] ", "/// doc\npub ", "#[cfg(feature = \"x\")] #[rustfmt::skip] ", "#[doc = \"d\"] pub(super) "];
const ROOT: [&str; 7] = ["m::", "crate::", "self::", "super::super::", "::m::", "m::n::Foo::o::", "crate::Mod::"];
/// use path::Name; and use path::Name as Other;
fn path(i: Id, wide: bool) {
    must("name"); must("rename");
    let (p, r) = around(wide);
    if choose(2, "rename") == 0 {
        doubles(&format!("{}use {}{};", p, r, i.real), &format!("{}use {}{} as {};", p, r, i.mock, i.real));
        cover("name");
    } else {
        let n = ["Bar", "bar", "_", "MockBar", "Foo"][choose(if wide { 5 } else { 2 }, "new") as usize];
        doubles(&format!("{}use {}{} as {};", p, r, i.real, n), &format!("{}use {}{} as {};", p, r, i.mock, n));
        cover("rename");
    }
}
/// use Name as Other; in the current module
fn here(i: Id, wide: bool) {
    must("reached");
    let (p, n) = (PRE[if wide { choose(8, "prefix") as usize } else { 0 }], ["Bar", "bar", "_"][choose(3, "new") as usize]);
    doubles(&format!("{}use {} as {};", p, i.real, n), &format!("{}use {} as {};", p, i.mock, n));
    cover("reached");
}
/// Any part of a group, up to some depth
fn tree(depth: u32, leaves: &mut Vec<Id>) -> (String, String) {
    match choose(if depth == 0 { 2 } else { 4 }, "tree") {
        0 => { let i = leaves.pop().unwrap_or_else(|| id("Last".into(), true)); let m = format!("{} as {}", i.mock, i.real); (i.real, m) }
        1 => { let i = leaves.pop().unwrap_or_else(|| id("last".into(), false)); (format!("{} as Q", i.real), format!("{} as Q", i.mock)) }
        2 => { let (a, b) = tree(depth - 1, leaves); (format!("P::p::{}", a), format!("P::p::{}", b)) }
        _ => {
            let (a, b) = tree(depth - 1, leaves);
            let (c, d) = tree(0, leaves);
            let t = if choose(2, "comma") == 1 { "," } else { "" };
            (format!("{{{}, {}{}}}", a, c, t), format!("{{{}, {}{}}}", b, d, t))
        }
    }
}
fn group(depth: u32, all: bool) {
    must("reached");
    let mut l = if all { vec![[id("Zz".into(), true), id("zz".into(), false)].into_iter().nth(choose(2, "other") as usize).unwrap(), some("name")] } else { vec![id("Foo".into(), true), id("Bar".into(), true), id("baz".into(), false)] };
    let p = PRE[if all { 0 } else { choose(3, "prefix") as usize }];
    let (a, b) = tree(depth, &mut l);
    let (c, d) = tree(0, &mut l);
    doubles(&format!("{}use m::{{{}, {}}};", p, a, c), &format!("{}use m::{{{}, {}}};", p, b, d));
    cover("reached");
}
/// Type aliases
fn alias(i: Id, wide: bool) {
    must("reached");
    let (p, mut r) = around(wide);
    if p.len() == 0 && choose(2, "bare") == 1 { r = ""; }
    let (g, a) = [("", ""), ("<T>", "<T>"), ("<'a, T: Foo>", "<'a, T>"), ("", "<u32, Foo>"), ("<const N: usize>", "<{ N }>"), ("<T>", "::<Foo<T>>")][choose(if !wide { 2 } else if p.len() == 0 && r == "m::" { 6 } else { 3 }, "generics") as usize];
    doubles(&format!("{}type New{} = {}{}{};", p, g, r, i.real, a), &format!("{}type New{} = {}{}{};", p, g, r, i.mock, a));
    cover("reached");
}
/// What cannot be doubled is rejected
fn rejected() {
    must("reached");
    const BAD: [&str; 17] = ["use m::*;", "use m::{Foo, *};", "use m::{n::{Foo, o::*}, Bar};", "use Foo;", "pub use foo;", "struct Foo {}", "fn foo() {}", "mod foo {}", "pub mod foo;", "static A: u32 = 0;",
        "type A = (Foo, Bar);", "type A = &'static Foo;", "type A = [Foo; 2];", "impl Foo {}", "trait Foo {}", "extern crate foo;", "type A = dyn Foo;"];
    let b = BAD[choose(17, "item") as usize];
    check(panics(|| double(TokenStream::new(), ts(b))), "what cannot be doubled is rejected");
    cover("reached");
}
/// Syntax errors are reported as such
fn syntax() {
    must("reached");
    const BAD: [&str; 5] = ["use ;", "use m::", "type A", "", "use m::{Foo"];
    let b = choose(4, "item") as usize;
    let out = double(TokenStream::new(), ts(BAD[b])).to_string();
    check(out.contains("compile_error"), "a syntax error is reported");
    check(!out.contains("cfg"), "a syntax error yields no import");
    cover("reached");
}
one!("c22_path", path(letter("i", "oo"), false));
one!("c22_names", path(some("name"), true));
one!("c22_here", here(letter("i", "oo"), false));
one!("c22_here_names", here(some("name"), true));
one!("c22_group", group(1, false));
one!("c22_group_names", group(1, true));
one!("c22_alias", alias(letter("i", "oo"), false));
one!("c22_alias_names", alias(some("name"), true));
one!("c22_pair", { must("reached"); let i = pair(); doubles(&format!("use m::{};", i.real), &format!("use m::{} as {};", i.mock, i.real)); cover("reached"); });
one!("c22_rejected", rejected());
one!("c22_syntax", syntax());
one!("c22d_path", path(letter("i", "oo"), true));
one!("c22d_alias", alias(letter("i", "oo"), true));
one!("c22d_group", group(2, false));
one!("c22d_group_names", group(2, true));
