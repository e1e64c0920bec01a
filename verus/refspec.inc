//@include strings.inc
verus! {

// ---- specification ----------------------------------------------------------------------------------------------

/// the characters XML allows (https://www.w3.org/TR/xml/#NT-Char)
pub open spec fn xml_char(x: int) -> bool {
    x == 0x9 || x == 0xA || x == 0xD || 0x20 <= x <= 0xD7FF || 0xE000 <= x <= 0xFFFD || 0x10000 <= x <= 0x10FFFF
}

pub open spec fn numeric(s: Seq<char>, radix: int) -> Option<char> {
    if s.len() > 0 && digits_ok(s, radix) && xml_char(digits_value(s, radix)) { Some(digits_value(s, radix) as char) } else { None }
}

/// the character that `&name;` stands for
pub open spec fn reference(name: Seq<char>) -> Option<char> {
    if name == seq!['a', 'm', 'p'] { Some('&') }
    else if name == seq!['a', 'p', 'o', 's'] { Some('\'') }
    else if name == seq!['g', 't'] { Some('>') }
    else if name == seq!['l', 't'] { Some('<') }
    else if name == seq!['q', 'u', 'o', 't'] { Some('"') }
    else if name.len() >= 2 && name[0] == '#' && (name[1] == 'x' || name[1] == 'X') { numeric(name.subrange(2, name.len() as int), 16) }
    else if name.len() >= 1 && name[0] == '#' { numeric(name.subrange(1, name.len() as int), 10) }
    else { None }
}

/// position of the first `x`, or the length
pub open spec fn first<A>(s: Seq<A>, x: A) -> int
    decreases s.len(),
{
    if s.len() == 0 || s[0] == x { 0 } else { 1 + first(s.drop_first(), x) }
}

/// text with its references replaced; None if it is not acceptable
pub open spec fn dec(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 {
        Some(Seq::empty())
    } else if s[0] != '&' {
        match dec(s.drop_first()) { Some(t) => Some(seq![s[0]] + t), None => None }
    } else {
        let j = first(s, ';');
        if j >= s.len() || j > 9 || reference(s.subrange(1, j)) is None || j < 1 { None } else {
            match dec(s.subrange(j + 1, s.len() as int)) { Some(t) => Some(seq![reference(s.subrange(1, j))->0] + t), None => None }
        }
    }
}

/// the same on bytes
pub open spec fn refb(nb: Seq<u8>) -> Option<char> {
    if nb.len() <= 8 && valid_utf8(nb) { reference(decode_utf8(nb)) } else { None }
}

pub open spec fn decb(b: Seq<u8>) -> Option<Seq<u8>>
    decreases b.len(),
{
    if b.len() == 0 {
        Some(Seq::empty())
    } else if b[0] != 38u8 {
        match decb(b.drop_first()) { Some(t) => Some(seq![b[0]] + t), None => None }
    } else {
        let j = first(b, 59u8);
        if j >= b.len() || j < 1 || refb(b.subrange(1, j)) is None { None } else {
            match decb(b.subrange(j + 1, b.len() as int)) { Some(t) => Some(encode_scalar(refb(b.subrange(1, j))->0 as u32) + t), None => None }
        }
    }
}

// ---- lemmas -----------------------------------------------------------------------------------------------------

pub proof fn first_bounds<A>(s: Seq<A>, x: A)
    ensures
        0 <= first(s, x) <= s.len(),
        first(s, x) < s.len() ==> s[first(s, x)] == x,
        forall|i: int| 0 <= i < first(s, x) ==> s[i] != x,
    decreases s.len(),
{
    if s.len() == 0 || s[0] == x { } else {
        first_bounds(s.drop_first(), x);
        assert forall|i: int| 0 <= i < first(s, x) implies s[i] != x by {
            if i > 0 { assert(s[i] == s.drop_first()[i - 1]); }
        }
    }
}

pub proof fn first_is<A>(s: Seq<A>, x: A, j: int)
    requires 0 <= j <= s.len(), j < s.len() ==> s[j] == x, forall|i: int| 0 <= i < j ==> s[i] != x,
    ensures first(s, x) == j,
{
    first_bounds(s, x);
}

/// the bytes of a character outside ASCII are outside ASCII
pub proof fn scalar_bytes(c: char)
    ensures
        (c as u32) < 0x80 ==> encode_scalar(c as u32) == seq![c as u8],
        (c as u32) >= 0x80 ==> forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[i] >= 0x80,
        1 <= encode_scalar(c as u32).len() <= 4,
{
    let v = c as u32;
    assert(v < 0x80 ==> (v & 0x7F) as u8 == v as u8) by (bit_vector);
    assert(last_continuation_byte(v) >= 0x80) by { let x = (v & 0x3F) as u8; assert(0x80u8 | x >= 0x80u8) by (bit_vector); }
    assert(second_last_continuation_byte(v) >= 0x80) by { let x = ((v >> 6) & 0x3F) as u8; assert(0x80u8 | x >= 0x80u8) by (bit_vector); }
    assert(third_last_continuation_byte(v) >= 0x80) by { let x = ((v >> 12) & 0x3F) as u8; assert(0x80u8 | x >= 0x80u8) by (bit_vector); }
    assert(leading_byte_width_2(v) >= 0x80) by { let x = ((v >> 6) & 0x1F) as u8; assert(0xC0u8 | x >= 0x80u8) by (bit_vector); }
    assert(leading_byte_width_3(v) >= 0x80) by { let x = ((v >> 12) & 0x0F) as u8; assert(0xE0u8 | x >= 0x80u8) by (bit_vector); }
    assert(leading_byte_width_4(v) >= 0x80) by { let x = ((v >> 18) & 0x07) as u8; assert(0xF0u8 | x >= 0x80u8) by (bit_vector); }
    if v < 0x80 { assert(encode_scalar(v) =~= seq![c as u8]); }
}

} // verus!
