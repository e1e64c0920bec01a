//@include refspec.inc
verus! {

// ---- lemmas -----------------------------------------------------------------------------------------------------

/// one more ASCII byte in front
pub proof fn ascii_prefix(c: u8, t: Seq<u8>)
    requires c < 0x80,
    ensures
        valid_utf8(seq![c] + t) == valid_utf8(t),
        valid_utf8(t) ==> decode_utf8(seq![c] + t) == seq![c as char] + decode_utf8(t),
{
    let s = seq![c] + t;
    assert(s[0] == c);
    assert(pop_first_scalar(s) =~= t) by {
        assert(s.subrange(1, s.len() as int) =~= t);
        assert(c < 0x80 ==> is_leading_byte_width_1(c));
    }
    assert(is_leading_byte_width_1(c));
    if valid_utf8(t) {
        let d = decode_utf8(t);
        let e = seq![c as char] + d;
        decode_utf8_encode_utf8(t);
        encode_utf8_decode_utf8(e);
        assert(e.drop_first() =~= d);
        assert(encode_scalar(c as u32) =~= seq![c]) by { assert(c < 0x80 ==> (c as u32 & 0x7F) as u8 == c) by (bit_vector); }
        assert(encode_utf8(e) =~= s);
    }
}


pub proof fn bytes3(a: u8, b: u8, c: u8, nb: Seq<u8>)
    requires a < 0x80, b < 0x80, c < 0x80,
    ensures (valid_utf8(nb) && decode_utf8(nb) == seq![a as char, b as char, c as char]) <==> nb == seq![a, b, c],
{
    ascii_seq(seq![a, b, c], nb);
    assert(seq![a, b, c].map_values(|x: u8| x as char) =~= seq![a as char, b as char, c as char]);
}

/// an ASCII text and its bytes
pub proof fn ascii_seq(t: Seq<u8>, nb: Seq<u8>)
    requires forall|i: int| 0 <= i < t.len() ==> t[i] < 0x80,
    ensures (valid_utf8(nb) && decode_utf8(nb) == t.map_values(|x: u8| x as char)) <==> nb == t,
    decreases t.len(),
{
    let m = t.map_values(|x: u8| x as char);
    ascii_valid(t);
    if valid_utf8(nb) && decode_utf8(nb) == m {
        decode_utf8_encode_utf8(nb);
        decode_utf8_encode_utf8(t);
    }
}

pub proof fn ascii_valid(t: Seq<u8>)
    requires forall|i: int| 0 <= i < t.len() ==> t[i] < 0x80,
    ensures valid_utf8(t), decode_utf8(t) == t.map_values(|x: u8| x as char),
    decreases t.len(),
{
    if t.len() > 0 {
        let u = t.drop_first();
        ascii_valid(u);
        ascii_prefix(t[0], u);
        assert(t =~= seq![t[0]] + u);
        assert(t.map_values(|x: u8| x as char) =~= seq![t[0] as char] + u.map_values(|x: u8| x as char));
    } else {
        assert(decode_utf8(t) =~= t.map_values(|x: u8| x as char));
    }
}

/// what the name of a reference stands for, told from its bytes
pub proof fn refb_cases(nb: Seq<u8>)
    ensures
        (nb.len() == 3 && nb[0] == 97 && nb[1] == 109 && nb[2] == 112) ==> refb(nb) == Some('&'),
        (nb.len() == 4 && nb[0] == 97 && nb[1] == 112 && nb[2] == 111 && nb[3] == 115) ==> refb(nb) == Some('\''),
        (nb.len() == 2 && nb[0] == 103 && nb[1] == 116) ==> refb(nb) == Some('>'),
        (nb.len() == 2 && nb[0] == 108 && nb[1] == 116) ==> refb(nb) == Some('<'),
        (nb.len() == 4 && nb[0] == 113 && nb[1] == 117 && nb[2] == 111 && nb[3] == 116) ==> refb(nb) == Some('"'),
        2 <= nb.len() <= 8 && nb[0] == 35 && (nb[1] == 120 || nb[1] == 88) ==> refb(nb) == (if valid_utf8(nb.subrange(2, nb.len() as int)) { numeric(decode_utf8(nb.subrange(2, nb.len() as int)), 16) } else { None }),
        1 <= nb.len() <= 8 && nb[0] == 35 && !(nb.len() >= 2 && (nb[1] == 120 || nb[1] == 88)) ==> refb(nb) == (if valid_utf8(nb.subrange(1, nb.len() as int)) { numeric(decode_utf8(nb.subrange(1, nb.len() as int)), 10) } else { None }),
        !(nb.len() == 3 && nb[0] == 97 && nb[1] == 109 && nb[2] == 112) && !(nb.len() == 4 && nb[0] == 97 && nb[1] == 112 && nb[2] == 111 && nb[3] == 115) && !(nb.len() == 2 && nb[0] == 103 && nb[1] == 116) && !(nb.len() == 2 && nb[0] == 108 && nb[1] == 116) && !(nb.len() == 4 && nb[0] == 113 && nb[1] == 117 && nb[2] == 111 && nb[3] == 116) && !(nb.len() >= 1 && nb[0] == 35) ==> refb(nb) is None,
{
    assert((nb.len() == 3 && nb[0] == 97 && nb[1] == 109 && nb[2] == 112) <==> nb =~= seq![97u8, 109, 112]);
    assert((nb.len() == 4 && nb[0] == 97 && nb[1] == 112 && nb[2] == 111 && nb[3] == 115) <==> nb =~= seq![97u8, 112, 111, 115]);
    assert((nb.len() == 2 && nb[0] == 103 && nb[1] == 116) <==> nb =~= seq![103u8, 116]);
    assert((nb.len() == 2 && nb[0] == 108 && nb[1] == 116) <==> nb =~= seq![108u8, 116]);
    assert((nb.len() == 4 && nb[0] == 113 && nb[1] == 117 && nb[2] == 111 && nb[3] == 116) <==> nb =~= seq![113u8, 117, 111, 116]);
    let f = |x: u8| x as char;
    ascii_seq(seq![97u8, 109, 112], nb);
    assert(seq![97u8, 109, 112].map_values(f) =~= seq!['a', 'm', 'p']);
    ascii_seq(seq![97u8, 112, 111, 115], nb);
    assert(seq![97u8, 112, 111, 115].map_values(f) =~= seq!['a', 'p', 'o', 's']);
    ascii_seq(seq![103u8, 116], nb);
    assert(seq![103u8, 116].map_values(f) =~= seq!['g', 't']);
    ascii_seq(seq![108u8, 116], nb);
    assert(seq![108u8, 116].map_values(f) =~= seq!['l', 't']);
    ascii_seq(seq![113u8, 117, 111, 116], nb);
    assert(seq![113u8, 117, 111, 116].map_values(f) =~= seq!['q', 'u', 'o', 't']);
    if valid_utf8(nb) && nb.len() > 0 {
        let d = decode_utf8(nb);
        let t = nb.subrange(1, nb.len() as int);
        if nb[0] < 0x80 {
            ascii_prefix(nb[0], t);
            assert(nb =~= seq![nb[0]] + t);
            assert(d[0] == nb[0] as char);
            assert(d.subrange(1, d.len() as int) =~= decode_utf8(t));
            if t.len() > 0 && t[0] < 0x80 {
                let u = nb.subrange(2, nb.len() as int);
                ascii_prefix(t[0], u);
                assert(t =~= seq![t[0]] + u);
                assert(d[1] == t[0] as char);
                assert(d.subrange(2, d.len() as int) =~= decode_utf8(u));
            } else if t.len() > 0 {
                ascii_first(t);
                assert(d[1] == decode_utf8(t)[0]);
            } else {
                assert(decode_utf8(t).len() == 0);
            }
        } else {
            ascii_first(nb);
        }
    }
    if nb.len() > 0 && nb[0] == 35 {
        let t = nb.subrange(1, nb.len() as int);
        ascii_prefix(35, t);
        assert(nb =~= seq![35u8] + t);
        if t.len() > 0 && (t[0] == 120 || t[0] == 88) {
            let u = nb.subrange(2, nb.len() as int);
            ascii_prefix(t[0], u);
            assert(t =~= seq![t[0]] + u);
        }
    }
    if nb.len() == 0 { assert(decode_utf8(nb).len() == 0); }
}

/// a sign is not a digit
pub proof fn numeric_sign(s: Seq<char>, radix: int)
    requires s.len() > 0, s[0] == '+', radix <= 36,
    ensures numeric(s, radix) is None,
{
    assert(digit(s[0], radix) is None);
}

/// a text that starts with a byte outside ASCII starts with such a character
pub proof fn ascii_first(b: Seq<u8>)
    requires valid_utf8(b), b.len() > 0, b[0] >= 0x80,
    ensures decode_utf8(b).len() > 0, (decode_utf8(b)[0] as u32) >= 0x80,
{
    let d = decode_utf8(b);
    decode_utf8_encode_utf8(b);
    if d.len() == 0 { assert(encode_utf8(d).len() == 0); }
    scalar_bytes(d[0]);
    assert(encode_utf8(d) == encode_scalar(d[0] as u32) + encode_utf8(d.drop_first()));
}

// ---- from bytes to characters

pub proof fn decb_plain(e: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < e.len() ==> e[i] != 38u8,
    ensures decb(e + t) == (match decb(t) { Some(d) => Some(e + d), None => None }),
    decreases e.len(),
{
    if e.len() == 0 {
        assert(e + t =~= t);
        if decb(t) is Some { assert(e + decb(t)->0 =~= decb(t)->0); }
    } else {
        let f = e.drop_first();
        assert((e + t).drop_first() =~= f + t);
        decb_plain(f, t);
        if decb(t) is Some { assert(seq![e[0]] + (f + decb(t)->0) =~= e + decb(t)->0); }
    }
}

pub proof fn encode_len(s: Seq<char>)
    ensures
        encode_utf8(s).len() >= s.len(),
        (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80) ==> encode_utf8(s).len() == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        scalar_bytes(s[0]);
        encode_len(s.drop_first());
        assert forall|i: int| 0 <= i < s.drop_first().len() implies s.drop_first()[i] == s[i + 1] by {}
    }
}

pub proof fn first_lift(s: Seq<char>)
    ensures first(encode_utf8(s), 59u8) == encode_utf8(s.subrange(0, first(s, ';'))).len(),
    decreases s.len(),
{
    first_bounds(s, ';');
    let b = encode_utf8(s);
    let j = first(s, ';');
    let p = s.subrange(0, j);
    let q = s.subrange(j, s.len() as int);
    assert(s =~= p + q);
    encode_utf8_concat(p, q);
    no_byte(p);
    let n = encode_utf8(p).len() as int;
    if j < s.len() {
        assert(q[0] == ';');
        scalar_bytes(';');
        assert(encode_utf8(q) == encode_scalar(q[0] as u32) + encode_utf8(q.drop_first()));
        assert(b[n] == 59u8);
    } else {
        assert(q.len() == 0);
        assert(encode_utf8(q).len() == 0);
    }
    assert forall|i: int| 0 <= i < n implies b[i] != 59u8 by { assert(b[i] == encode_utf8(p)[i]); }
    first_is(b, 59u8, n);
}

pub proof fn no_byte(p: Seq<char>)
    requires forall|i: int| 0 <= i < p.len() ==> p[i] != ';',
    ensures forall|i: int| 0 <= i < encode_utf8(p).len() ==> encode_utf8(p)[i] != 59u8,
    decreases p.len(),
{
    if p.len() > 0 {
        scalar_bytes(p[0]);
        let r = p.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies r[i] != ';' by { assert(r[i] == p[i + 1]); }
        no_byte(r);
        let e = encode_scalar(p[0] as u32);
        assert(encode_utf8(p) == e + encode_utf8(r));
        assert forall|i: int| 0 <= i < encode_utf8(p).len() implies encode_utf8(p)[i] != 59u8 by {
            if i < e.len() { assert(encode_utf8(p)[i] == e[i]); } else { assert(encode_utf8(p)[i] == encode_utf8(r)[i - e.len()]); }
        }
    }
}

/// an ASCII character occurs in a text where it occurs in its bytes
pub proof fn has_ascii(p: Seq<char>, x: char)
    requires (x as u32) < 0x80,
    ensures p.contains(x) <==> encode_utf8(p).contains(x as u8),
    decreases p.len(),
{
    let b = encode_utf8(p);
    if p.len() > 0 {
        let (e, r) = (encode_scalar(p[0] as u32), p.drop_first());
        scalar_bytes(p[0]);
        has_ascii(r, x);
        assert(b == e + encode_utf8(r));
        if p.contains(x) {
            let k = p.index_of(x);
            if k == 0 { assert(b[0] == x as u8); } else {
                assert(r[k - 1] == x);
                let m = encode_utf8(r).index_of(x as u8);
                assert(b[e.len() + m] == x as u8);
            }
        }
        if b.contains(x as u8) {
            let k = b.index_of(x as u8);
            if k < e.len() { assert(e[k] == x as u8); assert(p[0] == x); } else {
                assert(encode_utf8(r)[k - e.len()] == x as u8);
                let m = r.index_of(x);
                assert(p[m + 1] == x);
            }
        }
    }
}

pub proof fn reference_ascii(n: Seq<char>)
    requires reference(n) is Some,
    ensures forall|i: int| 0 <= i < n.len() ==> (#[trigger] n[i] as u32) < 0x80,
{
    if n.len() >= 1 && n[0] == '#' {
        let radix: int = if n.len() >= 2 && (n[1] == 'x' || n[1] == 'X') { 16 } else { 10 };
        let k: int = if radix == 16 { 2 } else { 1 };
        let d = n.subrange(k, n.len() as int);
        assert(numeric(d, radix) is Some);
        assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i] as u32) < 0x80 by {
            if i >= k { assert(n[i] == d[i - k]); assert(digit(d[i - k], radix) is Some); }
        }
    }
}

/// the two specifications agree
pub proof fn lift(s: Seq<char>)
    ensures decb(encode_utf8(s)) == (match dec(s) { Some(t) => Some(encode_utf8(t)), None => None }),
    decreases s.len(),
{
    let b = encode_utf8(s);
    if s.len() == 0 {
        assert(b.len() == 0);
        assert(decb(b) == Some(Seq::<u8>::empty()));
        assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    } else if s[0] != '&' {
        let e = encode_scalar(s[0] as u32);
        let r = s.drop_first();
        scalar_bytes(s[0]);
        assert(b == e + encode_utf8(r));
        decb_plain(e, encode_utf8(r));
        lift(r);
        if dec(r) is Some {
            let t = seq![s[0]] + dec(r)->0;
            assert(t.drop_first() =~= dec(r)->0);
            assert(encode_utf8(t) == e + encode_utf8(dec(r)->0));
        }
    } else {
        let j = first(s, ';');
        first_bounds(s, ';');
        first_lift(s);
        scalar_bytes('&');
        scalar_bytes(';');
        assert(b == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
        assert(b[0] == 38u8);
        let jb = first(b, 59u8);
        first_bounds(b, 59u8);
        if j >= s.len() {
            assert(s.subrange(0, j) =~= s);
            assert(decb(b) is None);
        } else {
            let n = s.subrange(1, j);
            let r = s.subrange(j + 1, s.len() as int);
            let p = s.subrange(0, j);
            let q = s.subrange(j, s.len() as int);
            assert(s =~= p + q);
            encode_utf8_concat(p, q);
            assert(p[0] == '&');
            assert(p.drop_first() =~= n);
            assert(q.drop_first() =~= r);
            assert(encode_utf8(p) == encode_scalar(p[0] as u32) + encode_utf8(n));
            assert(encode_utf8(q) == encode_scalar(q[0] as u32) + encode_utf8(r));
            assert(b.subrange(1, jb) =~= encode_utf8(n));
            assert(b.subrange(jb + 1, b.len() as int) =~= encode_utf8(r));
            encode_utf8_valid_utf8(n);
            encode_utf8_decode_utf8(n);
            encode_len(n);
            if reference(n) is Some { reference_ascii(n); }
            assert(refb(b.subrange(1, jb)) == if j <= 9 { reference(n) } else { None });
            lift(r);
            if dec(s) is Some {
                let c = reference(n)->0;
                let t = seq![c] + dec(r)->0;
                assert(t.drop_first() =~= dec(r)->0);
                assert(encode_utf8(t) == encode_scalar(c as u32) + encode_utf8(dec(r)->0));
            }
        }
    }
}

} // verus!
