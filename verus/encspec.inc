verus! {

// ---- specification ----------------------------------------------------------------------------------------------

/// what is written for a character
pub open spec fn esc(c: char) -> Seq<char> {
    if c == '&' { seq!['&', 'a', 'm', 'p', ';'] }
    else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] }
    else if c == '<' { seq!['&', 'l', 't', ';'] }
    else if c == '>' { seq!['&', 'g', 't', ';'] }
    else if c == '\'' { seq!['&', 'a', 'p', 'o', 's', ';'] }
    else { seq![c] }
}

pub open spec fn special(c: char) -> bool {
    c == '&' || c == '"' || c == '<' || c == '>' || c == '\''
}

pub open spec fn enc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { enc(s.drop_last()) + esc(s.last()) }
}

/// str::char_indices: every character with the position of its first byte
#[verifier::external_body]
pub fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).1 == s@[i] && r@[i].0 as int == encode_utf8(s@.subrange(0, i)).len() && r@[i].0 < usize::MAX,
{
    s.char_indices().collect()
}

// ---- lemmas -----------------------------------------------------------------------------------------------------

pub proof fn enc_concat(a: Seq<char>, b: Seq<char>)
    ensures enc(a + b) == enc(a) + enc(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(enc(a) + enc(b) =~= enc(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        enc_concat(a, b.drop_last());
        assert(enc(a + b) =~= enc(a) + enc(b));
    }
}

pub proof fn enc_plain(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !special(s[i]),
    ensures enc(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        enc_plain(s.drop_last());
        assert(enc(s) =~= s);
    } else {
        assert(enc(s) =~= s);
    }
}

/// the reference that is written for a character is one to this character
pub proof fn esc_reference(c: char)
    requires special(c),
    ensures
        3 <= esc(c).len() <= 6, esc(c)[0] == '&', esc(c).last() == ';',
        forall|i: int| 0 <= i < esc(c).len() - 1 ==> #[trigger] esc(c)[i] != ';',
        reference(esc(c).subrange(1, esc(c).len() - 1)) == Some(c),
{
    let e = esc(c);
    let name = e.subrange(1, e.len() - 1);
    let (amp, quot, gt, lt, apos) = (seq!['a', 'm', 'p'], seq!['q', 'u', 'o', 't'], seq!['g', 't'], seq!['l', 't'], seq!['a', 'p', 'o', 's']);
    assert(amp.len() == 3 && quot.len() == 4 && gt.len() == 2 && lt.len() == 2 && apos.len() == 4);
    assert(quot[0] == 'q' && apos[0] == 'a' && gt[0] == 'g' && lt[0] == 'l');
    if c == '&' { assert(name =~= amp); }
    else if c == '"' { assert(name =~= quot); }
    else if c == '<' { assert(name =~= lt); }
    else if c == '>' { assert(name =~= gt); }
    else { assert(name =~= apos); }
}

/// C01: what is written is read back
pub proof fn roundtrip(s: Seq<char>)
    ensures dec(enc(s)) == Some(s),
    decreases s.len(),
{
    hide(esc);
    hide(reference);
    if s.len() > 0 {
        let (c, r) = (s[0], s.drop_first());
        roundtrip(r);
        let e = esc(c);
        let t = enc(r);
        assert(s =~= seq![c] + r);
        enc_concat(seq![c], r);
        assert(enc(seq![c]) =~= e) by {
            assert(seq![c].drop_last() =~= Seq::<char>::empty());
            assert(enc(Seq::<char>::empty()) =~= Seq::<char>::empty());
            assert(enc(seq![c]) == enc(seq![c].drop_last()) + esc(c));
        }
        assert(enc(s) == e + t);
        if !special(c) {
            assert(e == seq![c]) by { reveal(esc); }
            assert((e + t).drop_first() =~= t);
            assert((e + t)[0] == c);
        } else {
            esc_reference(c);
            let n = e.len() - 1;
            assert forall|i: int| 0 <= i < n implies (e + t)[i] != ';' by { assert((e + t)[i] == e[i]); }
            assert((e + t)[n] == e[n]);
            first_is(e + t, ';', n);
            assert((e + t).subrange(1, n) =~= e.subrange(1, n));
            assert((e + t).subrange(n + 1, (e + t).len() as int) =~= t);
            assert((e + t)[0] == '&');
        }
    } else {
        assert(dec(enc(s)) == Some(Seq::<char>::empty()));
        assert(s =~= Seq::<char>::empty());
    }
}

/// C01: nothing in the output can be taken for markup
pub proof fn enc_safe(s: Seq<char>)
    ensures forall|i: int| 0 <= i < enc(s).len() ==> #[trigger] enc(s)[i] != '<' && enc(s)[i] != '>' && enc(s)[i] != '"' && enc(s)[i] != '\'',
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        enc_safe(p);
        assert forall|i: int| 0 <= i < enc(s).len() implies #[trigger] enc(s)[i] != '<' && enc(s)[i] != '>' && enc(s)[i] != '"' && enc(s)[i] != '\'' by {
            if i < enc(p).len() { assert(enc(s)[i] == enc(p)[i]); } else { assert(enc(s)[i] == esc(s.last())[i - enc(p).len()]); }
        }
    }
}

pub proof fn boundary_prefix(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        is_char_boundary(encode_utf8(s), encode_utf8(s.subrange(0, i)).len() as int),
        encode_utf8(s.subrange(0, i)).len() <= encode_utf8(s).len(),
        valid_utf8(encode_utf8(s)),
{
    let (p, q) = (s.subrange(0, i), s.subrange(i, s.len() as int));
    assert(s =~= p + q);
    encode_utf8_concat(p, q);
    encode_utf8_valid_utf8(s);
    encode_utf8_valid_utf8(q);
    is_char_boundary_start_end_of_seq(encode_utf8(s));
    is_char_boundary_start_end_of_seq(encode_utf8(q));
    let n = encode_utf8(p).len() as int;
    if encode_utf8(q).len() > 0 {
        is_char_boundary_iff_is_leading_byte(encode_utf8(q), 0);
        is_char_boundary_iff_is_leading_byte(encode_utf8(s), n);
        assert(encode_utf8(s)[n] == encode_utf8(q)[0]);
    }
}

/// the bytes between two character positions
pub proof fn piece(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures
        encode_utf8(s.subrange(0, i)).len() <= encode_utf8(s.subrange(0, j)).len() <= encode_utf8(s).len(),
        encode_utf8(s).subrange(encode_utf8(s.subrange(0, i)).len() as int, encode_utf8(s.subrange(0, j)).len() as int) == encode_utf8(s.subrange(i, j)),
        decode_utf8(encode_utf8(s.subrange(i, j))) == s.subrange(i, j),
{
    let (a, b, c) = (s.subrange(0, i), s.subrange(i, j), s.subrange(j, s.len() as int));
    assert(s =~= (a + b) + c);
    assert(s.subrange(0, j) =~= a + b);
    encode_utf8_concat(a, b);
    encode_utf8_concat(a + b, c);
    encode_utf8_decode_utf8(b);
    assert(encode_utf8(s).subrange(encode_utf8(a).len() as int, encode_utf8(a + b).len() as int) =~= encode_utf8(b));
}

pub proof fn byte_after(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), (s[i] as u32) < 0x80,
    ensures encode_utf8(s.subrange(0, i + 1)).len() == encode_utf8(s.subrange(0, i)).len() + 1,
{
    assert(s.subrange(0, i + 1) =~= s.subrange(0, i).push(s[i]));
    encode_utf8_push(s.subrange(0, i), s[i]);
    scalar_bytes(s[i]);
}

} // verus!
