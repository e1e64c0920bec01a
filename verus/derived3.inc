//@use gen:shapes.rs
//@fn own
        requires handed(old(deserializer).dv()), !old(deserializer).dv().done,
        ensures
            match r {
                Ok(_) => owns(old(deserializer).dv(), *old(into), final(deserializer).dv(), *final(into)),
                Err(e) => borrow_fails(old(deserializer).dv(), *old(into) is Some, err(e)),
            },
            steady(old(deserializer).dv(), final(deserializer).dv()),
            r is Ok ==> moved(old(deserializer).dv(), final(deserializer).dv()),
            r is Ok ==> settled(old(deserializer).dv(), final(deserializer).dv(), Kind::Element, false),
            final(deserializer).later() == old(deserializer).later(),
//@end
/// a string, and then to the end of the element
pub open spec fn owns<'xml>(d: crate::D<'xml>, a: Option<String>, e: crate::D<'xml>, b: Option<String>) -> bool {
    exists|x: crate::D<'xml>| #[trigger] <String as FromXml<'xml>>::reads(d, a, x, b)
}
//@item struct Borrowing
//@end
pub open spec fn borrowing_a<'xml>() -> Goes<'xml> { |c: Child<'xml>| c matches Child::Elem(id, _) && id == (IdV { ns: ""@, name: "a"@ }) }
pub open spec fn borrowing_b<'xml>() -> Goes<'xml> { |c: Child<'xml>| !borrowing_a()(c) && elem_for::<String>(c, ""@, "b"@) }

/// the one child that goes to the field gives it this text, shared with the input where it can be
pub open spec fn lent<'xml>(c: Seq<Child<'xml>>, goes: Goes<'xml>, x: Option<CowV>) -> bool
    decreases c.len(),
{
    if c.len() == 0 { x is None }
    else if goes(c.last()) { lent(c.drop_last(), goes, None) && x is Some && string_of(c.last().at()) == x }
    else { lent(c.drop_last(), goes, x) }
}
pub open spec fn cow_opt<'a>(x: Option<Cow<'a, str>>) -> Option<CowV> { match x { Some(x) => Some(cowv(x)), None => None } }

proof fn lent_next<'xml>(s: Seq<Child<'xml>>, c: Child<'xml>, goes: Goes<'xml>, x: Option<CowV>, y: Option<CowV>)
    requires lent(s, goes, x), if goes(c) { x is None && y is Some && string_of(c.at()) == y } else { x == y },
    ensures lent(s.push(c), goes, y),
{
    assert(s.push(c).drop_last() =~= s);
    assert(s.push(c).last() == c);
}

/// a function refuses a child, given what it read before
pub open spec fn lent_refused<'xml>(c: Seq<Child<'xml>>, goes: Goes<'xml>, e: ErrV) -> bool {
    exists|k: int, x: Option<CowV>| 0 <= k < c.len() && goes(c[k]) && #[trigger] lent(c.take(k), goes, x) && borrow_fails(c[k].at(), x is Some, e)
}
pub open spec fn own_refused<'xml>(c: Seq<Child<'xml>>, goes: Goes<'xml>, e: ErrV) -> bool {
    exists|k: int, x: Option<String>| 0 <= k < c.len() && goes(c[k]) && fed::<String>(c.take(k), goes, x) && #[trigger] borrow_fails(c[k].at(), x is Some, e)
}

//@impl FromXml for Borrowing
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { id == (IdV { ns: ""@, name: "Borrowing"@ }) }
    open spec fn reads(d: crate::D<'xml>, a: Self::Accumulator, e: crate::D<'xml>, b: Self::Accumulator) -> bool {
        let w = walk(d);
        &&& a is None && w.end is None && e == w.at
        &&& b matches Some(v)
            && lent(w.children, borrowing_a(), Some(cowv(v.a))) && gives(w.children, borrowing_b(), Some(v.b))
    }
    open spec fn fails(d: crate::D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        let w = walk(d);
        if a is Some { e == ErrV::Duplicate } else {
            ||| w.end == Some(e)
            // a function refuses the element of its field
            ||| lent_refused(w.children, borrowing_a(), e) || own_refused(w.children, borrowing_b(), e)
            ||| w.end is None && e == ErrV::Missing && (lent(w.children, borrowing_a(), None) || gives(w.children, borrowing_b(), None::<String>))
        }
    }
//@method matches
//@method deserialize
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
//@start
        hide(walk); hide(drain); hide(go); hide(scan); hide(fed); hide(lent);
        broadcast use fed_none;
        proof { reveal(lent); }
        let ghost vx_d = deserializer.dv();
        let ghost mut vx_seen = Seq::<Child<'xml>>::empty();
//@loop 0
        invariant_except_break
            *into is None,
            handed(deserializer.dv()), !deserializer.dv().done, known(deserializer.dv()),
            kept(vx_d, deserializer.dv()),
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
            walk(vx_d).children == vx_seen + walk(deserializer.dv()).children,
            walk(vx_d).end == walk(deserializer.dv()).end,
            walk(vx_d).at == walk(deserializer.dv()).at,
            lent(vx_seen, borrowing_a(), cow_opt(__value0.inner)),
            fed::<String>(vx_seen, borrowing_b(), __value1),
        ensures
            *into is None,
            kept(vx_d, deserializer.dv()), deserializer.dv().done,
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
            walk(vx_d).children == vx_seen,
            walk(vx_d).end is None,
            walk(vx_d).at == deserializer.dv(),
            lent(vx_seen, borrowing_a(), cow_opt(__value0.inner)),
            fed::<String>(vx_seen, borrowing_b(), __value1),
        decreases left_d(deserializer.dv()),
//@loop-start 0
            let ghost vx_at = deserializer.dv();
            let ghost vx_v = (__value0, __value1);
            proof {
                next_decreases(vx_at); head_decreases(vx_at); head_keeps(vx_at); walk_at(vx_at);
                let c = walk(vx_d).children;
                if head(vx_at) is Child || head(vx_at) is Broken {
                    assert(c.take(vx_seen.len() as int) =~= vx_seen);
                    let x = c[vx_seen.len() as int];
                    let y = x.at();
                    assert(lent(c.take(vx_seen.len() as int), borrowing_a(), cow_opt(vx_v.0.inner)));
                }
            }
//@loop-end 0
            proof {
                let c = head(vx_at)->Child_0;
                assert(vx_seen.push(c) + walk(deserializer.dv()).children =~= walk(vx_d).children);
                lent_next(vx_seen, c, borrowing_a(), cow_opt(vx_v.0.inner), cow_opt(__value0.inner));
                fed_next::<String>(vx_seen, c, borrowing_b(), vx_v.1, __value1);
                vx_seen = vx_seen.push(c);
            }
//@assoc Accumulator
//@assoc KIND
//@endimpl

// ---- names by a rule

//@item struct Cased
//@end
pub open spec fn cased_a<'xml, A: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| attr_for::<A>(c, ""@, "FIRST-NAME"@) }
pub open spec fn cased_b<'xml, B: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| elem_for::<B>(c, "urn:cased"@, "LAST-NAME"@) }
pub open spec fn cased_c<'xml, B: FromXml<'xml>, C: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| !cased_b::<B>()(c) && elem_for::<C>(c, "urn:cased"@, "TYPE"@) }
//@impl FromXml for Cased
    open spec fn fits() -> bool { A::fits() && B::fits() && C::fits() && A::flat() }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { id == (IdV { ns: "urn:cased"@, name: "Cased"@ }) }
    open spec fn reads(d: crate::D<'xml>, a: Self::Accumulator, e: crate::D<'xml>, b: Self::Accumulator) -> bool {
        let w = walk(d);
        &&& a is None && w.end is None && e == w.at
        &&& b matches Some(v)
            && gives(w.children, cased_a::<A>(), Some(v.first_name)) && gives(w.children, cased_b::<B>(), Some(v.last_name))
            && gives(w.children, cased_c::<B, C>(), Some(v.r#type))
    }
    open spec fn fails(d: crate::D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        let w = walk(d);
        if a is Some { e == ErrV::Duplicate } else {
            ||| w.end == Some(e)
            ||| refused::<A>(w.children, cased_a::<A>(), e) || refused::<B>(w.children, cased_b::<B>(), e)
            ||| refused::<C>(w.children, cased_c::<B, C>(), e)
            ||| w.end is None && e == ErrV::Missing && (
                gives(w.children, cased_a::<A>(), None::<A>) || gives(w.children, cased_b::<B>(), None::<B>)
                || gives(w.children, cased_c::<B, C>(), None::<C>))
        }
    }
//@method matches
//@method deserialize
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
//@start
        hide(walk); hide(drain); hide(go); hide(scan); hide(fed);
        broadcast use fed_none;
        proof {
            assert forall|a: A::Accumulator| call_ensures(<A::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { A::Accumulator::blank_is(a); }
            assert forall|a: B::Accumulator| call_ensures(<B::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { B::Accumulator::blank_is(a); }
            assert forall|a: C::Accumulator| call_ensures(<C::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { C::Accumulator::blank_is(a); }
        }
        let ghost vx_d = deserializer.dv();
        let ghost mut vx_seen = Seq::<Child<'xml>>::empty();
//@loop 0
        invariant_except_break
            *into is None,
            handed(deserializer.dv()), !deserializer.dv().done, known(deserializer.dv()),
            kept(vx_d, deserializer.dv()),
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
            walk(vx_d).children == vx_seen + walk(deserializer.dv()).children,
            walk(vx_d).end == walk(deserializer.dv()).end,
            walk(vx_d).at == walk(deserializer.dv()).at,
            fed::<A>(vx_seen, cased_a::<A>(), __value0),
            fed::<B>(vx_seen, cased_b::<B>(), __value1),
            fed::<C>(vx_seen, cased_c::<B, C>(), __value2),
        ensures
            *into is None,
            kept(vx_d, deserializer.dv()), deserializer.dv().done,
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
            walk(vx_d).children == vx_seen,
            walk(vx_d).end is None,
            walk(vx_d).at == deserializer.dv(),
            fed::<A>(vx_seen, cased_a::<A>(), __value0),
            fed::<B>(vx_seen, cased_b::<B>(), __value1),
            fed::<C>(vx_seen, cased_c::<B, C>(), __value2),
        decreases left_d(deserializer.dv()),
//@loop-start 0
            let ghost vx_at = deserializer.dv();
            let ghost vx_v = (__value0, __value1, __value2);
            proof {
                next_decreases(vx_at); head_decreases(vx_at); head_keeps(vx_at); walk_at(vx_at);
                let c = walk(vx_d).children;
                if head(vx_at) is Child || head(vx_at) is Broken {
                    assert(c.take(vx_seen.len() as int) =~= vx_seen);
                    let x = c[vx_seen.len() as int];
                    let y = x.at();
                }
            }
//@loop-end 0
            proof {
                let c = head(vx_at)->Child_0;
                assert(vx_seen.push(c) + walk(deserializer.dv()).children =~= walk(vx_d).children);
                fed_next::<A>(vx_seen, c, cased_a::<A>(), vx_v.0, __value0);
                fed_next::<B>(vx_seen, c, cased_b::<B>(), vx_v.1, __value1);
                fed_next::<C>(vx_seen, c, cased_c::<B, C>(), vx_v.2, __value2);
                vx_seen = vx_seen.push(c);
            }
//@assoc Accumulator
//@assoc KIND
//@endimpl


// ---- without an element around them

//@item struct Lent
//@item struct __LentAccumulator
//@end
pub open spec fn lent_a() -> IdV { IdV { ns: ""@, name: "a"@ } }
pub open spec fn lent_b() -> IdV { IdV { ns: ""@, name: "b"@ } }
//@impl FromXml for Lent
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { id == lent_a() || id == lent_b() }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        if own_name(d) == lent_a() { b.a.inner matches Some(x) && borrows(d, a.a.inner is Some, e, cowv(x)) && b.b == a.b }
        else { owns(d, a.b, e, b.b) && b.a == a.a }
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { borrow_fails(d, if own_name(d) == lent_a() { a.a.inner is Some } else { a.b is Some }, e) }
//@method matches
//@method deserialize
//@start
        hide(drain); hide(go); hide(scan);
        proof { if !deserializer.dv().done { law_own_name(deserializer.dv()); } }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@impl Default for __LentAccumulator
//@method default ret=r
    ensures r.blank(),
//@endimpl
//@impl Accumulate for __LentAccumulator
    open spec fn done(&self) -> Option<Lent<'a>> {
        match (self.a.inner, self.b) { (Some(a), Some(b)) => Some(Lent { a, b }), _ => None }
    }
    open spec fn blank(&self) -> bool { self.a.inner is None && self.b is None }
    proof fn blank_is(a: Self) {}
//@method try_done
//@endimpl
