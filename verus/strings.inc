use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::borrow::Cow;
use std::str;
//@include std.inc

verus! {

// ---- trusted: the standard library -------------------------------------------------------------------------------

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);

/// str::get with a byte range: the slice if both ends are character boundaries
#[verifier::external_body]
pub fn vx_str_get<'a>(s: &'a str, r: std::ops::Range<usize>) -> (o: Option<&'a str>)
    ensures
        o is Some <==> r.start <= r.end <= s.spec_bytes().len() && is_char_boundary(s.spec_bytes(), r.start as int) && is_char_boundary(s.spec_bytes(), r.end as int),
        o matches Some(x) ==> x.spec_bytes() == s.spec_bytes().subrange(r.start as int, r.end as int)
            && x@ == decode_utf8(s.spec_bytes().subrange(r.start as int, r.end as int)),
{
    s.get(r)
}

/// str::len: the number of bytes
#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize)
    ensures r == s.spec_bytes().len(),
{
    s.len()
}

pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();

pub uninterp spec fn vx_capacity(s: &String) -> usize;

pub assume_specification[ String::capacity ](s: &String) -> (r: usize)
    ensures r == vx_capacity(s), s@.len() > 0 ==> r > 0;

pub assume_specification[ String::reserve ](s: &mut String, n: usize)
    ensures final(s)@ == old(s)@;

pub assume_specification[ char::from_u32 ](x: u32) -> (r: Option<char>)
    ensures r is Some <==> is_scalar_value(x as int), r matches Some(c) ==> c as u32 == x;

/// char::from_u32 succeeds on exactly the Unicode scalar values
pub open spec fn is_scalar_value(x: int) -> bool {
    0 <= x <= 0xD7FF || 0xE000 <= x <= 0x10FFFF
}

pub assume_specification<'a>[ str::from_utf8 ](b: &'a [u8]) -> (r: Result<&'a str, std::str::Utf8Error>)
    ensures
        r is Ok <==> valid_utf8(b@),
        r matches Ok(x) ==> x.spec_bytes() == b@ && x@ == decode_utf8(b@);

/// str::starts_with(char)
#[verifier::external_body]
pub fn vx_starts_with(s: &str, c: char) -> (r: bool)
    ensures r == (s@.len() > 0 && s@[0] == c),
{
    s.starts_with(c)
}

pub open spec fn digit(c: char, radix: int) -> Option<int> {
    let d = if '0' <= c <= '9' { c as int - '0' as int }
        else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 }
        else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 }
        else { 99 };
    if d < radix { Some(d) } else { None }
}

pub open spec fn digits_ok(s: Seq<char>, radix: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] digit(s[i], radix)) is Some
}

pub open spec fn digits_value(s: Seq<char>, radix: int) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else {
        digits_value(s.drop_last(), radix) * radix + (match digit(s.last(), radix) { Some(d) => d, None => 0 })
    }
}

/// the value that from_str_radix gives: one or more digits after an optional plus sign, and in range
pub open spec fn parse_u32(s: Seq<char>, radix: int) -> Option<int> {
    let t = if s.len() > 0 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    if t.len() > 0 && digits_ok(t, radix) && digits_value(t, radix) <= u32::MAX { Some(digits_value(t, radix)) } else { None }
}

pub assume_specification[ u32::from_str_radix ](s: &str, radix: u32) -> (r: Result<u32, std::num::ParseIntError>)
    requires 2 <= radix <= 36,
    ensures
        r is Ok <==> parse_u32(s@, radix as int) is Some,
        r matches Ok(x) ==> parse_u32(s@, radix as int) == Some(x as int);

pub assume_specification[ <u32 as std::str::FromStr>::from_str ](s: &str) -> (r: Result<u32, std::num::ParseIntError>)
    ensures
        r is Ok <==> parse_u32(s@, 10) is Some,
        r matches Ok(x) ==> parse_u32(s@, 10) == Some(x as int);

/// Vec::extend with the bytes of a slice
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<u8>, s: &[u8])
    ensures final(v)@ == old(v)@ + s@,
{
    v.extend(s)
}

/// the text of an error message: not specified
#[verifier::external_body]
pub fn vx_message() -> String { String::new() }

pub open spec fn cow(c: Cow<'_, str>) -> Seq<char> {
    match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ }
}

// ---- lemmas on UTF-8 --------------------------------------------------------------------------------------------

/// the position after an ASCII character is a character boundary
pub proof fn boundary_after_ascii(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 0x80, 
    ensures is_char_boundary(b, i), is_char_boundary(b, i + 1),
{
    is_char_boundary_iff_is_leading_byte(b, i);
    assert(b[i] < 0x80 ==> is_leading_byte_width_1(b[i]));
    assert(is_char_boundary(b, i));
    is_char_boundary_start_end_of_seq(b);
    if i + 1 < b.len() {
        valid_utf8_split(b, i);
        let t = b.subrange(i, b.len() as int);
        assert(valid_utf8(t));
        assert(t[0] == b[i]);
        let u = pop_first_scalar(t);
        assert(valid_utf8(u));
        assert(u =~= b.subrange(i + 1, b.len() as int));
        is_char_boundary_start_end_of_seq(u);
        is_char_boundary_iff_is_leading_byte(u, 0);
        assert(u[0] == b[i + 1]);
        is_char_boundary_iff_is_leading_byte(b, i + 1);
    }
}

} // verus!
