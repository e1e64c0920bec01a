//@fn encode ret=r
    ensures
        r matches Ok(c) && cow(c) == enc(input@),
//@attr #[verifier::loop_isolation(false)] #[verifier::rlimit(60)]
//@start
    let ghost vx_s = input@;
    let ghost mut vx_le: int = 0;
    proof {
        assert(vx_s.subrange(0, 0) =~= Seq::<char>::empty());
        assert(encode_utf8(Seq::<char>::empty()).len() == 0);
        reveal_strlit("&amp;"); reveal_strlit("&quot;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&apos;");
    }
//@loop 0
        invariant
            vx_s0@.len() == vx_s.len(),
            vx_i0 <= vx_s.len(),
            0 <= vx_le <= vx_i0,
            last_end as int == encode_utf8(vx_s.subrange(0, vx_le)).len(),
            result@ == enc(vx_s.subrange(0, vx_le)),
            forall|i: int| vx_le <= i < vx_i0 ==> !special(vx_s[i]),
            result@.len() == 0 ==> vx_le == 0,
        decreases vx_s.len() - vx_i0,
//@loop-start 0
            let ghost at = vx_i0 as int;
            proof {
                piece(vx_s, vx_le, at);
                boundary_prefix(vx_s, vx_le);
                boundary_prefix(vx_s, at);
                if special(vx_s[at]) { byte_after(vx_s, at); }
                let (a, b) = (vx_s.subrange(0, vx_le), vx_s.subrange(vx_le, at));
                enc_concat(a, b);
                enc_plain(b);
                assert(vx_s.subrange(0, at) =~= a + b);
                assert(vx_s.subrange(0, at + 1).drop_last() =~= a + b);
                piece(vx_s, at + 1, vx_s.len() as int);
                assert(vx_s.subrange(0, vx_s.len() as int) =~= vx_s);
            }
//@loop-end 0
            proof {
                assert(result@ =~= enc(vx_s.subrange(0, at + 1)));
                vx_le = at + 1;
            }
//@loop-after 0
    proof {
        let n = vx_s.len() as int;
        piece(vx_s, vx_le, n);
        boundary_prefix(vx_s, vx_le);
        boundary_prefix(vx_s, n);
        assert(vx_s.subrange(0, n) =~= vx_s);
        let (a, b) = (vx_s.subrange(0, vx_le), vx_s.subrange(vx_le, n));
        assert(vx_s =~= a + b);
        enc_concat(a, b);
        enc_plain(b);
        if result@.len() == 0 { assert(b =~= vx_s); }
    }
//@end
