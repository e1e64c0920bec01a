//@include refs.inc
use std::str::FromStr;
verus! {

// ---- what the loop of decode() maintains

/// `out` is what the bytes before `pos` decode to
#[verifier::opaque]
pub open spec fn joined(b: Seq<u8>, out: Seq<u8>, pos: int) -> bool {
    decb(b) == (match decb(b.subrange(pos, b.len() as int)) { Some(t) => Some(out + t), None => None })
}

pub proof fn step_plain(b: Seq<u8>, out: Seq<u8>, i: int)
    requires joined(b, out, i), 0 <= i < b.len(), b[i] != 38u8,
    ensures joined(b, out.push(b[i]), i + 1),
{
    reveal(joined);
    let t = b.subrange(i, b.len() as int);
    assert(t.drop_first() =~= b.subrange(i + 1, b.len() as int));
    if decb(t.drop_first()) is Some {
        assert(out + (seq![t[0]] + decb(t.drop_first())->0) =~= out.push(b[i]) + decb(t.drop_first())->0);
    }
}

pub proof fn step_reference(b: Seq<u8>, out: Seq<u8>, amp: int, j: int)
    requires joined(b, out, amp), 0 <= amp < j < b.len(), b[amp] == 38u8, b[j] == 59u8, forall|k: int| amp < k < j ==> b[k] != 59u8,
    ensures
        refb(b.subrange(amp + 1, j)) is None ==> decb(b) is None,
        refb(b.subrange(amp + 1, j)) matches Some(c) ==> joined(b, out + encode_scalar(c as u32), j + 1),
{
    reveal(joined);
    let t = b.subrange(amp, b.len() as int);
    first_is(t, 59u8, j - amp);
    assert(t.subrange(1, j - amp) =~= b.subrange(amp + 1, j));
    let r = t.subrange(j - amp + 1, t.len() as int);
    assert(r =~= b.subrange(j + 1, b.len() as int));
    if let Some(c) = refb(b.subrange(amp + 1, j)) {
        if decb(r) is Some {
            assert(out + (encode_scalar(c as u32) + decb(r)->0) =~= (out + encode_scalar(c as u32)) + decb(r)->0);
        }
    }
}

/// no semicolon up to `k`, which is the end or too far
pub proof fn step_endless(b: Seq<u8>, out: Seq<u8>, amp: int, k: int)
    requires joined(b, out, amp), 0 <= amp < k <= b.len(), b[amp] == 38u8, forall|i: int| amp < i < k ==> b[i] != 59u8, k == b.len() || k - amp > 9,
    ensures decb(b) is None,
{
    reveal(joined);
    let t = b.subrange(amp, b.len() as int);
    first_bounds(t, 59u8);
    let j = first(t, 59u8);
    assert forall|i: int| 1 <= i < k - amp implies t[i] != 59u8 by { assert(t[i] == b[amp + i]); }
    assert(j >= k - amp) by { if j < k - amp { assert(t[j] == 59u8); assert(j >= 1); } }
    if j < t.len() { assert(t.subrange(1, j).len() > 8); }
}

pub proof fn valid_utf8_subrange(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), 0 <= i <= j <= b.len(), is_char_boundary(b, i), is_char_boundary(b, j),
    ensures valid_utf8(b.subrange(i, j)),
{
    valid_utf8_split(b, j);
    let p = b.subrange(0, j);
    is_char_boundary_start_end_of_seq(p);
    if i < j {
        is_char_boundary_iff_is_leading_byte(b, i);
        is_char_boundary_iff_is_leading_byte(p, i);
    }
    valid_utf8_split(p, i);
    assert(p.subrange(i, p.len() as int) =~= b.subrange(i, j));
}

pub proof fn joined_start(b: Seq<u8>)
    ensures joined(b, encode_utf8(Seq::<char>::empty()) + b.subrange(0, 0), 0),
{
    reveal(joined);
    assert(b.subrange(0, b.len() as int) =~= b);
    assert(encode_utf8(Seq::<char>::empty()) + b.subrange(0, 0) =~= Seq::<u8>::empty());
    if decb(b) is Some { assert(Seq::<u8>::empty() + decb(b)->0 =~= decb(b)->0); }
}

pub proof fn joined_end(b: Seq<u8>, out: Seq<u8>)
    requires joined(b, out, b.len() as int),
    ensures decb(b) == Some(out),
{
    reveal(joined);
    assert(b.subrange(b.len() as int, b.len() as int) =~= Seq::<u8>::empty());
    assert(out + Seq::<u8>::empty() =~= out);
}

// ---- the code ---------------------------------------------------------------------------------------------------

//@use instant-xml/src/de.rs
//@opt message InvalidEntity
//@opt method get vx_str_get
//@opt method starts_with vx_starts_with
//@opt method extend &mut:vx_extend
//@opt type Error Error
pub enum Error { InvalidEntity(String) }
//@item const MAX_ENTITY_LEN
//@item enum DecodeState
//@fn valid_xml_character ret=r
    ensures r == xml_char(*c as int),
//@fn decode ret=r
    ensures
        r is Ok <==> dec(input@) is Some,
        r matches Ok(c) ==> dec(input@) == Some(cow(c)),
        r matches Ok(Cow::Borrowed(x)) ==> x@ == input@ && !input@.contains('&'),
        r matches Ok(Cow::Owned(x)) ==> input@.contains('&'),
//@attr #[verifier::loop_isolation(false)] #[verifier::rlimit(200)]
//@start
    let ghost vx_b = input.spec_bytes();
    proof { lift(input@); encode_utf8_valid_utf8(input@); encode_utf8_decode_utf8(input@); joined_start(vx_b); is_char_boundary_start_end_of_seq(vx_b); }
//@loop 0
        invariant
            vx_s0@ == vx_b,
            vx_i0 <= vx_b.len(),
            last_end <= vx_i0,
            is_char_boundary(vx_b, last_end as int),
            match state {
                DecodeState::Normal => joined(vx_b, encode_utf8(result@) + vx_b.subrange(last_end as int, vx_i0 as int), vx_i0 as int),
                DecodeState::Entity(chars, len) => {
                    let amp = vx_i0 - len - 1;
                    &&& len <= 8
                    &&& last_end <= amp
                    &&& vx_b[amp] == 38u8
                    &&& chars@.subrange(0, len as int) == vx_b.subrange(amp + 1, vx_i0 as int)
                    &&& forall|k: int| amp < k < vx_i0 ==> vx_b[k] != 59u8
                    &&& joined(vx_b, encode_utf8(result@) + vx_b.subrange(last_end as int, amp), amp)
                },
            },
            result@.len() == 0 ==> last_end == 0,
            result@.len() > 0 ==> vx_b.contains(38u8),
            result@.len() == 0 && state is Normal ==> forall|k: int| 0 <= k < vx_i0 ==> vx_b[k] != 38u8,
        decreases vx_b.len() - vx_i0,
//@loop-start 0
            let ghost st = state;
            let ghost r0 = result@;
            let ghost last0 = last_end as int;
            let ghost at = vx_i0 as int;
            proof {
                let byte = vx_b[at];
                match st {
                    DecodeState::Normal => {
                        if byte != 38u8 {
                            step_plain(vx_b, encode_utf8(r0) + vx_b.subrange(last0, at), at);
                            assert((encode_utf8(r0) + vx_b.subrange(last0, at)).push(byte) =~= encode_utf8(r0) + vx_b.subrange(last0, at + 1));
                        }
                    },
                    DecodeState::Entity(chars, len) => {
                        let amp = at - len - 1;
                        let out = encode_utf8(r0) + vx_b.subrange(last0, amp);
                        let name = vx_b.subrange(amp + 1, at);
                        if byte == 59u8 {
                            step_reference(vx_b, out, amp, at);
                            refb_cases(name);
                            if name.len() >= 2 {
                                let d = decode_utf8(name.subrange(2, name.len() as int));
                                if d.len() > 0 && d[0] == '+' { numeric_sign(d, 16); }
                            }
                            if name.len() >= 1 {
                                let d = decode_utf8(name.subrange(1, name.len() as int));
                                if d.len() > 0 && d[0] == '+' { numeric_sign(d, 10); }
                            }
                            boundary_after_ascii(vx_b, amp);
                            boundary_after_ascii(vx_b, at);
                        } else if len >= 8 {
                            step_endless(vx_b, out, amp, at + 1);
                        }
                    },
                }
            }
//@loop-end 0
            proof {
                match st {
                    DecodeState::Entity(chars, len) => {
                        if vx_b[at] == 59u8 {
                            let amp = at - len - 1;
                            let piece = vx_b.subrange(last0, amp);
                            let c = refb(vx_b.subrange(amp + 1, at))->0;
                            valid_utf8_subrange(vx_b, last0, amp);
                            decode_utf8_encode_utf8(piece);
                            let x = decode_utf8(piece);
                            if last0 >= amp { assert(piece =~= Seq::<u8>::empty()); assert(x =~= Seq::<char>::empty()); }
                            assert(result@ =~= (r0 + x).push(c));
                            encode_utf8_concat(r0, x);
                            encode_utf8_push(r0 + x, c);
                            assert(encode_utf8(result@) =~= encode_utf8(r0) + piece + encode_scalar(c as u32));
                            assert(encode_utf8(result@) + vx_b.subrange(last_end as int, at + 1) =~= encode_utf8(r0) + piece + encode_scalar(c as u32));
                        }
                    },
                    _ => {},
                }
            }
//@loop-after 0
    proof {
        let n = vx_b.len() as int;
        has_ascii(input@, '&');
        match state {
            DecodeState::Normal => {
                let piece = vx_b.subrange(last_end as int, n);
                joined_end(vx_b, encode_utf8(result@) + piece);
                is_char_boundary_start_end_of_seq(vx_b);
                valid_utf8_subrange(vx_b, last_end as int, n);
                decode_utf8_encode_utf8(piece);
                let x = decode_utf8(piece);
                encode_utf8_concat(result@, x);
                encode_utf8_decode_utf8(result@ + x);
                encode_utf8_decode_utf8(dec(input@)->0);
                if result@.len() == 0 {
                    assert(piece =~= vx_b);
                    assert(result@ + x =~= input@);
                }
            },
            DecodeState::Entity(chars, len) => {
                let amp = n - len - 1;
                step_endless(vx_b, encode_utf8(result@) + vx_b.subrange(last_end as int, amp), amp, n);
            },
        }
    }
//@end
} // verus!
fn main() {}
