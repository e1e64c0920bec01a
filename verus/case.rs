use vstd::prelude::*;
//@include std.inc
verus! {

// ---- identifiers and the standard library: trusted --------------------------------------------------------------------

/// proc_macro2::Ident
#[verifier::external_body]
pub struct Ident { s: String }
impl View for Ident {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
pub open spec fn upper(c: char) -> char { if 'a' <= c <= 'z' { ((c as u32 - 32) as u32) as char } else { c } }
pub open spec fn lowers(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower(c)) }
pub open spec fn uppers(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upper(c)) }
pub open spec fn capital(c: char) -> bool { 'A' <= c <= 'Z' }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }

pub trait Text: Sized {
    spec fn text(&self) -> Seq<char>;
    fn vx_to_string(self) -> (r: String)
        ensures r@ == self.text();
}
impl Text for &Ident {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(self) -> (r: String) { unimplemented!() }
}
impl Text for &str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(self) -> (r: String) { self.to_string() }
}
impl Text for &String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(self) -> (r: String) { self.to_string() }
}
pub fn vx_to_string<T: Text>(t: T) -> (r: String)
    ensures r@ == t.text(),
{
    t.vx_to_string()
}

pub trait Cased {
    type Out;
    spec fn is_lower(&self, r: Self::Out) -> bool;
    spec fn is_upper(&self, r: Self::Out) -> bool;
    fn vx_to_ascii_lowercase(&self) -> (r: Self::Out)
        ensures self.is_lower(r);
    fn vx_to_ascii_uppercase(&self) -> (r: Self::Out)
        ensures self.is_upper(r);
}
impl Cased for char {
    type Out = char;
    open spec fn is_lower(&self, r: char) -> bool { r == lower(*self) }
    open spec fn is_upper(&self, r: char) -> bool { r == upper(*self) }
    #[verifier::external_body]
    fn vx_to_ascii_lowercase(&self) -> (r: char) { self.to_ascii_lowercase() }
    #[verifier::external_body]
    fn vx_to_ascii_uppercase(&self) -> (r: char) { self.to_ascii_uppercase() }
}
impl Cased for String {
    type Out = String;
    open spec fn is_lower(&self, r: String) -> bool { r@ == lowers(self@) }
    open spec fn is_upper(&self, r: String) -> bool { r@ == uppers(self@) }
    #[verifier::external_body]
    fn vx_to_ascii_lowercase(&self) -> (r: String) { self.to_ascii_lowercase() }
    #[verifier::external_body]
    fn vx_to_ascii_uppercase(&self) -> (r: String) { self.to_ascii_uppercase() }
}
impl Cased for &str {
    type Out = String;
    open spec fn is_lower(&self, r: String) -> bool { r@ == lowers(self@) }
    open spec fn is_upper(&self, r: String) -> bool { r@ == uppers(self@) }
    #[verifier::external_body]
    fn vx_to_ascii_lowercase(&self) -> (r: String) { self.to_ascii_lowercase() }
    #[verifier::external_body]
    fn vx_to_ascii_uppercase(&self) -> (r: String) { self.to_ascii_uppercase() }
}
pub fn vx_lower<T: Cased>(t: &T) -> (r: T::Out) ensures t.is_lower(r), { t.vx_to_ascii_lowercase() }
pub fn vx_upper<T: Cased>(t: &T) -> (r: T::Out) ensures t.is_upper(r), { t.vx_to_ascii_uppercase() }

#[verifier::external_body]
pub fn vx_is_uppercase(c: char) -> (r: bool)
    ensures (c as u32) < 128 ==> r == capital(c),
{
    c.is_uppercase()
}

/// str::replace of a character
pub open spec fn replaced(s: Seq<char>, a: char, b: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s } else { replaced(s.drop_last(), a, b) + if s.last() == a { b } else { seq![s.last()] } }
}
#[verifier::external_body]
pub fn vx_replace(s: &str, a: char, b: &str) -> (r: String)
    ensures r@ == replaced(s@, a, b@),
{
    s.replace(a, b)
}

pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == starts(s@, p@),
{
    s.starts_with(p)
}

/// slices by bytes, which are characters in ASCII
#[verifier::external_body]
pub fn vx_slice_from(s: &str, n: usize) -> (r: &str)
    requires ascii(s@), n <= s@.len(),
    ensures r@ == s@.subrange(n as int, s@.len() as int),
{
    &s[n..]
}
#[verifier::external_body]
pub fn vx_slice_to(s: &str, n: usize) -> (r: &str)
    requires ascii(s@), n <= s@.len(),
    ensures r@ == s@.subrange(0, n as int),
{
    &s[..n]
}
#[verifier::external_body]
pub fn vx_concat(a: String, b: &str) -> (r: String)
    ensures r@ == a@ + b@,
{
    a + b
}
#[verifier::external_body]
pub fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).1 == s@[i] && (r@[i].0 > 0 <==> i > 0),
{
    s.char_indices().collect()
}
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == s@,
{
    s.chars().collect()
}

pub mod case {
use super::*;
//@use instant-xml-macros/src/case.rs
//@opt str-slice
//@opt concat
//@opt method to_string vx_to_string
//@opt method to_ascii_lowercase &vx_lower
//@opt method to_ascii_uppercase &vx_upper
//@opt method is_uppercase vx_is_uppercase
//@opt method replace &vx_replace
//@opt method starts_with &vx_starts_with
//@item enum RenameRule derive=Clone,Copy
use self::RenameRule::*;

// ---- specification: names ---------------------------------------------------------------------------------------------

/// every letter after an underscore, and the first one, is a capital; the underscores go
pub open spec fn pascal(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s } else {
        let p = pascal(s.drop_last());
        let first = s.len() == 1 || s[s.len() - 2] == '_';
        if s.last() == '_' { p } else if first { p.push(upper(s.last())) } else { p.push(s.last()) }
    }
}

/// an underscore in front of every capital but the first letter, and everything in small letters
pub open spec fn snake(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s } else {
        let p = snake(s.drop_last());
        if s.len() > 1 && capital(s.last()) { p.push('_').push(lower(s.last())) } else { p.push(lower(s.last())) }
    }
}

pub open spec fn uncapital(s: Seq<char>) -> Seq<char> { lowers(s.subrange(0, 1)) + s.subrange(1, s.len() as int) }

pub open spec fn variant_name(r: RenameRule, s: Seq<char>) -> Seq<char> {
    match r {
        RenameRule::None => s,
        RenameRule::PascalCase => s,
        RenameRule::LowerCase => lowers(s),
        RenameRule::UpperCase => uppers(s),
        RenameRule::CamelCase => uncapital(s),
        RenameRule::SnakeCase => snake(s),
        RenameRule::ScreamingSnakeCase => uppers(snake(s)),
        RenameRule::KebabCase => replaced(snake(s), '_', "-"@),
        RenameRule::ScreamingKebabCase => replaced(uppers(snake(s)), '_', "-"@),
    }
}

pub open spec fn unraw(s: Seq<char>) -> Seq<char> { if starts(s, "r#"@) { s.subrange(2, s.len() as int) } else { s } }

pub open spec fn field_name(r: RenameRule, s: Seq<char>) -> Seq<char> {
    match r {
        RenameRule::None => s,
        RenameRule::LowerCase => s,
        RenameRule::SnakeCase => s,
        RenameRule::UpperCase => uppers(s),
        RenameRule::PascalCase => pascal(s),
        RenameRule::CamelCase => uncapital(pascal(s)),
        RenameRule::ScreamingSnakeCase => uppers(s),
        RenameRule::KebabCase => replaced(s, '_', "-"@),
        RenameRule::ScreamingKebabCase => replaced(uppers(s), '_', "-"@),
    }
}

/// the name of a field of Rust's usual style: a letter or digit is in it
pub open spec fn usual_field(s: Seq<char>) -> bool { ascii(s) && exists|i: int| 0 <= i < unraw(s).len() && unraw(s)[i] != '_' }
pub open spec fn usual_variant(s: Seq<char>) -> bool { ascii(s) && unraw(s).len() > 0 }

pub open spec fn rank(r: RenameRule) -> int {
    match r { RenameRule::ScreamingKebabCase => 2, RenameRule::KebabCase => 1, RenameRule::ScreamingSnakeCase => 1, RenameRule::CamelCase => 1, _ => 0 }
}

proof fn pascal_ascii(s: Seq<char>)
    requires ascii(s),
    ensures ascii(pascal(s)), (exists|i: int| 0 <= i < s.len() && s[i] != '_') ==> pascal(s).len() > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(ascii(t));
        pascal_ascii(t);
        if exists|i: int| 0 <= i < s.len() && s[i] != '_' {
            let i = choose|i: int| 0 <= i < s.len() && s[i] != '_';
            if i < t.len() { assert(t[i] != '_'); }
        }
    }
}

//@item struct ParseError
/// the documented rules, as the macro sees them: in quotes
pub open spec fn rule_is(s: Seq<char>, r: RenameRule) -> bool {
    ||| s == "\"lowercase\""@ && r is LowerCase
    ||| s == "\"UPPERCASE\""@ && r is UpperCase
    ||| s == "\"PascalCase\""@ && r is PascalCase
    ||| s == "\"camelCase\""@ && r is CamelCase
    ||| s == "\"snake_case\""@ && r is SnakeCase
    ||| s == "\"SCREAMING_SNAKE_CASE\""@ && r is ScreamingSnakeCase
    ||| s == "\"kebab-case\""@ && r is KebabCase
    ||| s == "\"SCREAMING-KEBAB-CASE\""@ && r is ScreamingKebabCase
}
pub open spec fn listed(t: Seq<(&str, RenameRule)>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == s }
//@const RENAME_RULES
    ensures
        forall|i: int| 0 <= i < RENAME_RULES@.len() ==> rule_is((#[trigger] RENAME_RULES@[i]).0@, RENAME_RULES@[i].1),
        forall|s: Seq<char>, r: RenameRule| #[trigger] rule_is(s, r) ==> listed(RENAME_RULES@, s),
//@impl RenameRule
//@method from_str ret=r
    ensures
        match r {
            Ok(x) => rule_is(rename_all_str@, x),
            Err(e) => e.unknown@ == rename_all_str@ && forall|x: RenameRule| !rule_is(rename_all_str@, x),
        },
//@attr #[verifier::loop_isolation(false)]
//@loop 0
        invariant
            vx_i0 <= vx_s0@.len(),
            forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] vx_s0@[i]).0@ != rename_all_str@,
        decreases vx_s0@.len() - vx_i0,
//@method apply_to_variant ret=r
    requires usual_variant(ident@),
    ensures r@ == variant_name(*self, unraw(ident@)),
    decreases rank(*self),
//@start
        let ghost vx_v = unraw(ident@);
        proof { reveal_strlit("r#"); assert(vx_v.subrange(0, vx_v.len() as int) =~= vx_v); }
//@loop 0
        invariant
            vx_i0 <= vx_s0@.len(), vx_s0@.len() == vx_v.len(), ascii(vx_v),
            forall|i: int| 0 <= i < vx_v.len() ==> (#[trigger] vx_s0@[i]).1 == vx_v[i] && (vx_s0@[i].0 > 0 <==> i > 0),
            usual_variant(ident@),
            snake@ == self::snake(vx_v.subrange(0, vx_i0 as int)),
        decreases vx_s0@.len() - vx_i0,
//@loop-start 0
            proof { assert(vx_v.subrange(0, vx_i0 + 1).drop_last() =~= vx_v.subrange(0, vx_i0 as int)); }
//@method apply_to_field ret=r
    requires usual_field(ident@),
    ensures r@ == field_name(*self, unraw(ident@)),
    decreases rank(*self),
//@start
        let ghost vx_f = unraw(ident@);
        proof { reveal_strlit("r#"); pascal_ascii(vx_f); assert(vx_f.subrange(0, vx_f.len() as int) =~= vx_f); }
//@loop 0
        invariant
            vx_i0 <= vx_s0@.len(), vx_s0@ == vx_f,
            pascal@ == self::pascal(vx_f.subrange(0, vx_i0 as int)),
            capitalize <==> vx_i0 == 0 || vx_f[vx_i0 - 1] == '_',
        decreases vx_s0@.len() - vx_i0,
//@loop-start 0
            proof { assert(vx_f.subrange(0, vx_i0 + 1).drop_last() =~= vx_f.subrange(0, vx_i0 as int)); }
//@endimpl
//@end
}
} // verus!
fn main() {}
