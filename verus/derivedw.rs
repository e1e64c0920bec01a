//@include markup.inc
//@include serstd.inc
verus! {

//@use instant-xml/src/lib.rs
//@opt message Other UnexpectedToken UnknownPrefix InvalidEntity UnexpectedValue ExpectedScalar
//@opt type xmlparser::Error ParseError
//@opt type fmt::Error FmtError
//@opt type HashMap<&'staticstr,&'staticstr> NsTable
//@opt path HashMap::new NsTable::new
//@opt path fmt::Write Write
//@opt path std::fmt::Write Write
//@opt path fmt::Display Display
//@opt result own_out write_fmt write_str write_char serialize write_start end_start write_close end_empty write_attr
//@opt mark own_out write_start end_start serialize write_close end_empty Ok
//@item enum Error
//@item struct Id derive=Clone,Copy
//@include serspec.inc
pub broadcast group vx_literals { empty_add }
//@opt external on
//@include serfns.inc
pub broadcast group texts_ok { empty_add }
//@use instant-xml/src/impls.rs
//@include strimpl.inc
//@opt external off

// ---- what derived code relies on ----------------------------------------------------------------------------------

pub broadcast proof fn push_drop(s: Seq<LevelV>, t: LevelV)
    ensures #[trigger] s.push(t).drop_last() == s,
{
    assert(s.push(t).drop_last() =~= s);
}

/// the prefixes that a value inside the element declares can be declared there
pub proof fn room_inside(t: Map<Seq<char>, Seq<char>>, u: Map<Seq<char>, Seq<char>>, cx: Seq<Prefix>, all: Binds, b: Binds)
    requires
        compatible(t, all), coherent(all), extended(t, u, cx), b.subset_of(all),
        forall|j: int| 0 <= j < cx.len() && (#[trigger] cx[j]).prefix@.len() > 0 ==> all.contains((cx[j].prefix@, cx[j].ns@)),
    ensures compatible(u, b), coherent(b),
{
    assert forall|k: Seq<char>, x: (Seq<char>, Seq<char>)| #[trigger] u.contains_key(k) && #[trigger] b.contains(x) && u[k] == x.0 implies k == x.1 by {
        assert(all.contains(x));
        if !t.contains_key(k) {
            let j = choose|j: int| 0 <= j < cx.len() && (#[trigger] cx[j]).prefix@.len() > 0 && cx[j].ns@ == k && cx[j].prefix@ == u[k];
            assert(all.contains((cx[j].prefix@, cx[j].ns@)));
        }
    }
}

/// a subset has room too
pub proof fn room_part(t: Map<Seq<char>, Seq<char>>, all: Binds, b: Binds)
    requires compatible(t, all), coherent(all), b.subset_of(all),
    ensures compatible(t, b), coherent(b),
{
}

/// the prefixes of the context can be declared
pub proof fn room_context(t: Map<Seq<char>, Seq<char>>, cx: Seq<Prefix>, all: Binds)
    requires
        compatible(t, all),
        forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> t[k].len() > 0,
        forall|j: int| 0 <= j < cx.len() && (#[trigger] cx[j]).prefix@.len() > 0 ==> all.contains((cx[j].prefix@, cx[j].ns@)),
    ensures no_rebinding(t, cx),
{
    assert forall|ns: Seq<char>, i: int| t.contains_key(ns) && 0 <= i < cx.len() && #[trigger] t[ns] == (#[trigger] cx[i]).prefix@ implies cx[i].ns@ == ns by {
        assert(all.contains((cx[i].prefix@, cx[i].ns@)));
    }
}

//@include derivedw.inc
//@end
} // verus!
fn main() {}
