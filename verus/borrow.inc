// ---- strings that share the input
//@use instant-xml/src/de.rs
/// the string is the text, shared with the input exactly where it can be, and the element is read to its end
pub open spec fn borrows<'a>(d: D<'a>, a: bool, e: D<'a>, b: CowV) -> bool {
    &&& !a
    &&& string_of(d) == Some(b)
    &&& e.done && e.first is None
}
/// it is there already, or its text or what follows it is refused
pub open spec fn borrow_fails(d: D, a: bool, e: ErrV) -> bool {
    if a { e == ErrV::Duplicate } else {
        match take(d).0 { Ok(_) => rest(take(d).1).0 == Some(e), Err(x) => e == x }
    }
}
//@fn borrow_cow_str
    ensures
        match r {
            Ok(_) => final(into).inner matches Some(x) && borrows(old(deserializer).dv(), old(into).inner is Some, final(deserializer).dv(), cowv(x)),
            Err(e) => handed(old(deserializer).dv()) && !old(deserializer).dv().done ==> borrow_fails(old(deserializer).dv(), old(into).inner is Some, err(e)),
        },
        moved(old(deserializer).dv(), final(deserializer).dv()),
        r is Ok && handed(old(deserializer).dv()) && !old(deserializer).dv().done ==> settled(old(deserializer).dv(), final(deserializer).dv(), Kind::Element, false),
        final(deserializer).later() == old(deserializer).later(),
//@start
    proof { take_moves(deserializer.dv()); }
//@end
