//@use gen:shapes.rs

// ---- fields by position

/// the field in the next position: an element of the type, or (scalars) the text
pub open spec fn slot<'xml, T: FromXml<'xml>>(d: D<'xml>, b: T::Accumulator, e: D<'xml>) -> bool {
    if T::KIND is Element {
        match next_of(d) {
            (Out::Node(NodeV::Open(x)), d1) => element_name(d1.s.stack, x) matches Some(name) && T::named(name, None)
                && drain(d1.s, d1.s.stack.len() as int) == (None::<ErrV>, e.s) && e == (D { s: e.s, ..d1 })
                && exists|a: T::Accumulator, f: D<'xml>| a.blank() && #[trigger] T::reads(opened(x, d1.s), a, f, b),
            (Out::End, d1) => e == d1 && b.blank(),
            _ => false,
        }
    } else { exists|a: T::Accumulator| a.blank() && #[trigger] T::reads(d, a, e, b) }
}

pub open spec fn slot_fails<'xml, T: FromXml<'xml>>(d: D<'xml>, e: ErrV) -> bool {
    if T::KIND is Element {
        match next_of(d) {
            (Out::Node(NodeV::Open(x)), d1) => match element_name(d1.s.stack, x) {
                Some(name) => if T::named(name, None) {
                    ||| exists|a: T::Accumulator| a.blank() && #[trigger] T::fails(opened(x, d1.s), a, e)
                    ||| drain(d1.s, d1.s.stack.len() as int).0 == Some(e)
                } else { e == ErrV::Other },
                None => e == ErrV::Other,
            },
            (Out::Node(_), _) => e == ErrV::Other,
            (Out::Err(x), _) => e == x,
            (Out::End, _) => false,
        }
    } else { exists|a: T::Accumulator| a.blank() && #[trigger] T::fails(d, a, e) }
}


//@item struct Tuple
//@end
//@impl FromXml for Tuple
    open spec fn fits() -> bool { A::fits() && B::fits() && (A::KIND is Scalar ==> A::flat()) && (B::KIND is Scalar ==> B::flat()) }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { id == (IdV { ns: "urn:shapes"@, name: "Tuple"@ }) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        &&& a is None
        &&& b matches Some(v) && exists|x: A::Accumulator, d1: D<'xml>, y: B::Accumulator, d2: D<'xml>|
            #[trigger] slot::<A>(d, x, d1) && #[trigger] slot::<B>(d1, y, d2) && x.done() == Some(v.0) && y.done() == Some(v.1)
            && rest(d2) == (None::<ErrV>, e.s) && e == (D { s: e.s, done: true, first: None, ..d2 })
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        if a is Some { e == ErrV::Duplicate } else {
            ||| slot_fails::<A>(d, e)
            ||| exists|x: A::Accumulator, d1: D<'xml>| #[trigger] slot::<A>(d, x, d1) && {
                ||| slot_fails::<B>(d1, e)
                ||| exists|y: B::Accumulator, d2: D<'xml>| #[trigger] slot::<B>(d1, y, d2) && {
                    ||| rest(d2).0 == Some(e)
                    ||| rest(d2).0 is None && e == ErrV::Missing && (x.done() is None || y.done() is None)
                }
            }
        }
    }
//@method matches
//@method deserialize
//@attr #[verifier::rlimit(60)]
//@start
        hide(drain); hide(go); hide(scan);
        proof { if !deserializer.dv().done { law_own_name(deserializer.dv()); } }
        proof {
            assert forall|a: A::Accumulator| call_ensures(<A::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { A::Accumulator::blank_is(a); }
            assert forall|a: B::Accumulator| call_ensures(<B::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { B::Accumulator::blank_is(a); }
            if handed(deserializer.dv()) && deserializer.dv().first is None { slot_keeps(deserializer.dv()); }
        }
        let ghost vx_d = deserializer.dv();
//@before let_v1
        let ghost vx_d1 = deserializer.dv();
        proof { assert(slot::<A>(vx_d, v0, vx_d1)); if vx_d1.first is None { slot_keeps(vx_d1); } }
//@before ignore#2
        let ghost vx_d2 = deserializer.dv();
        proof { assert(slot::<B>(vx_d1, v1, vx_d2)); }
//@assoc Accumulator
//@assoc KIND
//@endimpl

/// The next element or text leaves the reader in the same element.
proof fn slot_keeps<'xml>(d: D<'xml>)
    requires handed(d), d.first is None,
    ensures
        match next_of(d) {
            (Out::Node(NodeV::Open(x)), d1) => {
                let s2 = drain(d1.s, d1.s.stack.len() as int).1;
                let e = D { s: s2, ..d1 };
                &&& !d.done && handed(opened(x, d1.s))
                &&& drain(d1.s, d1.s.stack.len() as int).0 is None ==> kept(d, e) && moved(d, e) && handed(e) && e.first is None
            },
            (Out::End, d1) => kept(d, d1) && moved(d, d1) && handed(d1) && d1.first is None,
            _ => true,
        },
{
    next_decreases(d);
    let (o, d1) = next_of(d);
    if o is Node && !(o->Node_0 is Open) { node_keeps(d); }
    if o == Out::End { end_keeps(d); }
    if let Out::Node(NodeV::Open(x)) = o {
        law_next(d);
        law_step(d.s);
        law_drain_nested(d1.s, d.level, d1.s.stack.len() as int);
        law_drain(d1.s, d1.s.stack.len() as int);
        assert(d1.s.stack.drop_last() =~= d.s.stack);
        drain_shrinks(d1.s, d1.s.stack.len() as int);
    }
}

// ---- an element without content

//@item struct Unit
//@end
//@impl FromXml for Unit
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { id == (IdV { ns: "urn:shapes"@, name: "Unit"@ }) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        a is None && b is Some && drain(d.s, d.level) == (None::<ErrV>, e.s) && e == (D { s: e.s, done: true, first: None, ..d })
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        if a is Some { e == ErrV::Duplicate } else { drain(d.s, d.level).0 == Some(e) }
    }
//@method matches
//@method deserialize
//@assoc Accumulator
//@assoc KIND
//@endimpl

// ---- names of variants

//@item enum Choice
//@end
pub open spec fn choice(s: Seq<char>) -> Option<Choice> {
    if s == "ONE"@ { Some(Choice::One) } else if s == "number two"@ { Some(Choice::Two) } else if s == "3"@ { Some(Choice::Three) } else { None }
}
//@impl FromXml for Choice
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { id == (IdV { ns: ""@, name: match field { Some(f) => f.name, None => id.name } }) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        a is None && e == take(d).1 && b is Some && (take(d).0 matches Ok(Some(c)) && b == choice(c.text))
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        if a is Some { e == ErrV::Duplicate } else {
            match take(d).0 {
                Ok(Some(c)) => choice(c.text) is None && e == ErrV::Value,
                Ok(None) => e == ErrV::Missing,
                Err(x) => e == x,
            }
        }
    }
//@method matches
//@method deserialize
//@start
        broadcast use axiom_cow_ref;
        proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl

// ---- one of several types

//@item enum Either
//@end
//@impl FromXml for Either
    open spec fn fits() -> bool { A::fits() && B::fits() }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { A::named(id, field) || B::named(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        a is None && if A::named(own_name(d), None) {
            exists|x: A::Accumulator, e1: D<'xml>, y: A::Accumulator| x.blank() && #[trigger] A::reads(d, x, e1, y)
                && b == (match y.done() { Some(v) => Some(Either::<A, B>::Left(v)), None => None }) && next_of(e1) == (Out::End, e)
        } else {
            B::named(own_name(d), None) && exists|x: B::Accumulator, e1: D<'xml>, y: B::Accumulator| x.blank() && #[trigger] B::reads(d, x, e1, y)
                && b == (match y.done() { Some(v) => Some(Either::<A, B>::Right(v)), None => None }) && next_of(e1) == (Out::End, e)
        }
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        if a is Some { e == ErrV::Duplicate } else if A::named(own_name(d), None) {
            ||| exists|x: A::Accumulator| x.blank() && #[trigger] A::fails(d, x, e)
            ||| e == ErrV::State && exists|x: A::Accumulator, e1: D<'xml>, y: A::Accumulator| x.blank() && #[trigger] A::reads(d, x, e1, y) && next_of(e1).0 != Out::End
        } else if B::named(own_name(d), None) {
            ||| exists|x: B::Accumulator| x.blank() && #[trigger] B::fails(d, x, e)
            ||| e == ErrV::State && exists|x: B::Accumulator, e1: D<'xml>, y: B::Accumulator| x.blank() && #[trigger] B::reads(d, x, e1, y) && next_of(e1).0 != Out::End
        } else { e == ErrV::Other }
    }
//@method matches
//@method deserialize
//@attr #[verifier::rlimit(60)]
//@start
        hide(drain); hide(go); hide(scan);
        proof { if !deserializer.dv().done { law_own_name(deserializer.dv()); } }
        proof {
            assert forall|a: A::Accumulator| call_ensures(<A::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { A::Accumulator::blank_is(a); }
            assert forall|a: B::Accumulator| call_ensures(<B::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { B::Accumulator::blank_is(a); }
        }
        let ghost vx_d = deserializer.dv();
//@before next
        proof {
            let vx_e = deserializer.dv();
            next_decreases(vx_e);
            if next_of(vx_e).0 == Out::End { end_keeps(vx_e); }
        }
//@assoc Accumulator
//@assoc KIND
//@endimpl

// ---- fields without an element around them

//@item struct Inline
//@item struct __InlineAccumulator
//@end
pub open spec fn inline_a() -> IdV { IdV { ns: ""@, name: "a"@ } }
pub open spec fn inline_b() -> IdV { IdV { ns: ""@, name: "b"@ } }
/// the whole element is read as one value
pub open spec fn whole<'xml, T: FromXml<'xml>>(d: D<'xml>, a: T::Accumulator, e: D<'xml>, b: T::Accumulator) -> bool {
    if T::KIND is Element { T::reads(d, a, e, b) }
    else { exists|e1: D<'xml>| #[trigger] T::reads(d, a, e1, b) && rest(e1) == (None::<ErrV>, e.s) && e == (D { s: e.s, done: true, first: None, ..e1 }) }
}
pub open spec fn whole_fails<'xml, T: FromXml<'xml>>(d: D<'xml>, a: T::Accumulator, e: ErrV) -> bool {
    T::fails(d, a, e) || (T::KIND is Scalar && exists|e1: D<'xml>, b: T::Accumulator| #[trigger] T::reads(d, a, e1, b) && rest(e1).0 == Some(e))
}
//@impl FromXml for Inline
    open spec fn fits() -> bool { A::fits() && B::fits() }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { A::named(id, Some(inline_a())) || B::named(id, Some(inline_b())) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        if A::named(own_name(d), Some(inline_a())) { whole::<A>(d, a.a, e, b.a) && b.b == a.b }
        else { whole::<B>(d, a.b, e, b.b) && b.a == a.a }
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        if A::named(own_name(d), Some(inline_a())) { whole_fails::<A>(d, a.a, e) } else { whole_fails::<B>(d, a.b, e) }
    }
//@method matches
//@method deserialize
//@start
        hide(drain); hide(go); hide(scan);
        proof { if !deserializer.dv().done { law_own_name(deserializer.dv()); } }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@impl Default for __InlineAccumulator
//@method default ret=r
    ensures r.blank(),
//@start
        proof {
            assert forall|a: A::Accumulator| call_ensures(<A::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { A::Accumulator::blank_is(a); }
            assert forall|a: B::Accumulator| call_ensures(<B::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { B::Accumulator::blank_is(a); }
        }
//@endimpl
//@impl Accumulate for __InlineAccumulator
    open spec fn done(&self) -> Option<Inline<A, B>> {
        match (self.a.done(), self.b.done()) { (Some(a), Some(b)) => Some(Inline { a, b }), _ => None }
    }
    open spec fn blank(&self) -> bool { self.a.blank() && self.b.blank() }
    proof fn blank_is(a: Self) {}
//@method try_done
//@endimpl
