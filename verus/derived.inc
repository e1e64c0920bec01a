//@use gen:shapes.rs
//@const OTHER
    ensures OTHER@ == "urn:other"@,
//@item struct Named
//@end
pub open spec fn named_a<'xml, A: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| attr_for::<A>(c, ""@, "a"@) }
pub open spec fn named_b<'xml, A: FromXml<'xml>, B: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| !named_a::<A>()(c) && attr_for::<B>(c, "urn:other"@, "b"@) }
pub open spec fn named_c<'xml, C: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| elem_for::<C>(c, "urn:shapes"@, "c"@) }
pub open spec fn named_d<'xml, C: FromXml<'xml>, D1: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| !named_c::<C>()(c) && elem_for::<D1>(c, "urn:own"@, "dee"@) }

//@impl FromXml for Named
    open spec fn fits() -> bool { A::fits() && B::fits() && C::fits() && D::fits() && A::flat() && B::flat() }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { id == (IdV { ns: "urn:shapes"@, name: "named"@ }) }
    open spec fn reads(d: crate::D<'xml>, a: Self::Accumulator, e: crate::D<'xml>, b: Self::Accumulator) -> bool {
        let w = walk(d);
        &&& a is None && w.end is None && e == w.at
        &&& b matches Some(v)
            && gives(w.children, named_a::<A>(), Some(v.a)) && gives(w.children, named_b::<A, B>(), Some(v.b))
            && gives(w.children, named_c::<C>(), Some(v.c)) && gives(w.children, named_d::<C, D>(), Some(v.d))
    }
    open spec fn fails(d: crate::D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        let w = walk(d);
        if a is Some { e == ErrV::Duplicate } else {
            ||| w.end == Some(e)
            ||| refused::<A>(w.children, named_a::<A>(), e) || refused::<B>(w.children, named_b::<A, B>(), e)
            ||| refused::<C>(w.children, named_c::<C>(), e) || refused::<D>(w.children, named_d::<C, D>(), e)
            ||| w.end is None && e == ErrV::Missing && (
                gives(w.children, named_a::<A>(), None::<A>) || gives(w.children, named_b::<A, B>(), None::<B>)
                || gives(w.children, named_c::<C>(), None::<C>) || gives(w.children, named_d::<C, D>(), None::<D>))
        }
    }
//@method matches
//@method deserialize
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
//@start
        hide(walk); hide(drain); hide(go); hide(scan); hide(fed);
        broadcast use fed_none;
        proof {
            assert forall|a: A::Accumulator| call_ensures(<A::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { A::Accumulator::blank_is(a); }
            assert forall|a: B::Accumulator| call_ensures(<B::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { B::Accumulator::blank_is(a); }
            assert forall|a: C::Accumulator| call_ensures(<C::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { C::Accumulator::blank_is(a); }
            assert forall|a: D::Accumulator| call_ensures(<D::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { D::Accumulator::blank_is(a); }
        }
        let ghost vx_d = deserializer.dv();
        let ghost mut vx_seen = Seq::<Child<'xml>>::empty();
//@loop 0
        invariant_except_break
            *into is None,
            handed(deserializer.dv()), !deserializer.dv().done, known(deserializer.dv()),
            kept(vx_d, deserializer.dv()),
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
            walk(vx_d).children == vx_seen + walk(deserializer.dv()).children,
            walk(vx_d).end == walk(deserializer.dv()).end,
            walk(vx_d).at == walk(deserializer.dv()).at,
            fed::<A>(vx_seen, named_a::<A>(), __value0),
            fed::<B>(vx_seen, named_b::<A, B>(), __value1),
            fed::<C>(vx_seen, named_c::<C>(), __value2),
            fed::<D>(vx_seen, named_d::<C, D>(), __value3),
        ensures
            *into is None,
            kept(vx_d, deserializer.dv()), deserializer.dv().done,
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
            walk(vx_d).children == vx_seen,
            walk(vx_d).end is None,
            walk(vx_d).at == deserializer.dv(),
            fed::<A>(vx_seen, named_a::<A>(), __value0),
            fed::<B>(vx_seen, named_b::<A, B>(), __value1),
            fed::<C>(vx_seen, named_c::<C>(), __value2),
            fed::<D>(vx_seen, named_d::<C, D>(), __value3),
        decreases left_d(deserializer.dv()),
//@loop-start 0
            let ghost vx_at = deserializer.dv();
            let ghost vx_v = (__value0, __value1, __value2, __value3);
            proof {
                next_decreases(vx_at); head_decreases(vx_at); head_keeps(vx_at); walk_at(vx_at);
                let c = walk(vx_d).children;
                if head(vx_at) is Child || head(vx_at) is Broken {
                    assert(c.take(vx_seen.len() as int) =~= vx_seen);
                    let x = c[vx_seen.len() as int];
                    let y = x.at();
                }
            }
//@loop-end 0
            proof {
                let c = head(vx_at)->Child_0;
                assert(vx_seen.push(c) + walk(deserializer.dv()).children =~= walk(vx_d).children);
                fed_next::<A>(vx_seen, c, named_a::<A>(), vx_v.0, __value0);
                fed_next::<B>(vx_seen, c, named_b::<A, B>(), vx_v.1, __value1);
                fed_next::<C>(vx_seen, c, named_c::<C>(), vx_v.2, __value2);
                fed_next::<D>(vx_seen, c, named_d::<C, D>(), vx_v.3, __value3);
                vx_seen = vx_seen.push(c);
            }
//@assoc Accumulator
//@assoc KIND
//@endimpl

/// Two elements with the same children for every field are read as the same values, whatever else is in them and in
/// whatever order the children of different fields are (see law_unknown and law_order).
proof fn law_named<'xml, A: FromXml<'xml>, B: FromXml<'xml>, C: FromXml<'xml>, D1: FromXml<'xml>>(d: crate::D<'xml>, d2: crate::D<'xml>, v: Named<A, B, C, D1>)
    requires
        walk(d).end is None, walk(d2).end is None,
        walk(d).children.filter(named_a::<A>()) == walk(d2).children.filter(named_a::<A>()),
        walk(d).children.filter(named_b::<A, B>()) == walk(d2).children.filter(named_b::<A, B>()),
        walk(d).children.filter(named_c::<C>()) == walk(d2).children.filter(named_c::<C>()),
        walk(d).children.filter(named_d::<C, D1>()) == walk(d2).children.filter(named_d::<C, D1>()),
    ensures
        Named::<A, B, C, D1>::reads(d, None, walk(d).at, Some(v)) <==> Named::<A, B, C, D1>::reads(d2, None, walk(d2).at, Some(v)),
{
    law_own_children::<A>(walk(d).children, walk(d2).children, named_a::<A>());
    law_own_children::<B>(walk(d).children, walk(d2).children, named_b::<A, B>());
    law_own_children::<C>(walk(d).children, walk(d2).children, named_c::<C>());
    law_own_children::<D1>(walk(d).children, walk(d2).children, named_d::<C, D1>());
}

// ---- struct with direct text

//@item struct Direct
//@end
pub open spec fn direct_a<'xml, A: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| attr_for::<A>(c, ""@, "a"@) }
pub open spec fn direct_b<'xml, B: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| elem_for::<B>(c, ""@, "b"@) }
pub open spec fn direct_c<'xml>() -> Goes<'xml> { |c: Child<'xml>| c is Text }

/// as the texts say, or, if nothing was read, as the empty text
pub open spec fn some_value<'xml, T: FromXml<'xml>>(d: crate::D<'xml>, v: Option<T>) -> bool {
    exists|b: T::Accumulator, e: crate::D<'xml>, c: T::Accumulator| b.blank() && #[trigger] T::reads(d, b, e, c) && c.done() == v
}
pub open spec fn text_read<'xml, T: FromXml<'xml>>(w: Walk<'xml>, v: Option<T>) -> bool {
    ||| v is Some && gives(w.children, direct_c(), v)
    ||| gives(w.children, direct_c(), None::<T>) && some_value(empty_text(w.at), v)
}
pub open spec fn empty_text<'xml>(d: crate::D<'xml>) -> crate::D<'xml> { front(d, NodeV::Text(CowV { text: ""@, borrowed: true })) }
//@impl FromXml for Direct
    open spec fn fits() -> bool { A::fits() && B::fits() && C::fits() && A::flat() && C::flat() }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { id == (IdV { ns: ""@, name: "Direct"@ }) }
    open spec fn reads(d: crate::D<'xml>, a: Self::Accumulator, e: crate::D<'xml>, b: Self::Accumulator) -> bool {
        let w = walk(d);
        &&& a is None && w.end is None && e == w.at
        &&& b matches Some(v)
            && gives(w.children, direct_a::<A>(), Some(v.a)) && gives(w.children, direct_b::<B>(), Some(v.b)) && text_read(w, Some(v.c))
    }
    open spec fn fails(d: crate::D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        let w = walk(d);
        if a is Some { e == ErrV::Duplicate } else {
            ||| w.end == Some(e)
            ||| refused::<A>(w.children, direct_a::<A>(), e) || refused::<B>(w.children, direct_b::<B>(), e) || refused::<C>(w.children, direct_c(), e)
            ||| w.end is None && e == ErrV::Missing && (
                gives(w.children, direct_a::<A>(), None::<A>) || gives(w.children, direct_b::<B>(), None::<B>))
            ||| w.end is None && gives(w.children, direct_c(), None::<C>) && one_fails::<C>(empty_text(w.at), e)
        }
    }
//@method matches
//@method deserialize
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
//@start
        hide(walk); hide(drain); hide(go); hide(scan); hide(fed);
        broadcast use fed_none;
        proof {
            assert forall|a: A::Accumulator| call_ensures(<A::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { A::Accumulator::blank_is(a); }
            assert forall|a: B::Accumulator| call_ensures(<B::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { B::Accumulator::blank_is(a); }
            assert forall|a: C::Accumulator| call_ensures(<C::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { C::Accumulator::blank_is(a); }
        }
        let ghost vx_d = deserializer.dv();
        let ghost mut vx_seen = Seq::<Child<'xml>>::empty();
//@loop 0
        invariant_except_break
            *into is None,
            handed(deserializer.dv()), !deserializer.dv().done, known(deserializer.dv()),
            kept(vx_d, deserializer.dv()),
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
            walk(vx_d).children == vx_seen + walk(deserializer.dv()).children,
            walk(vx_d).end == walk(deserializer.dv()).end,
            walk(vx_d).at == walk(deserializer.dv()).at,
            fed::<A>(vx_seen, direct_a::<A>(), __value0),
            fed::<B>(vx_seen, direct_b::<B>(), __value1),
            fed::<C>(vx_seen, direct_c(), __value2),
        ensures
            *into is None,
            kept(vx_d, deserializer.dv()), deserializer.dv().done, deserializer.dv().first is None,
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
            walk(vx_d).children == vx_seen,
            walk(vx_d).end is None,
            walk(vx_d).at == deserializer.dv(),
            fed::<A>(vx_seen, direct_a::<A>(), __value0),
            fed::<B>(vx_seen, direct_b::<B>(), __value1),
            fed::<C>(vx_seen, direct_c(), __value2),
        decreases left_d(deserializer.dv()),
//@loop-start 0
            let ghost vx_at = deserializer.dv();
            let ghost vx_v = (__value0, __value1, __value2);
            proof {
                next_decreases(vx_at); head_decreases(vx_at); head_keeps(vx_at); walk_at(vx_at);
                let c = walk(vx_d).children;
                if head(vx_at) is Child || head(vx_at) is Broken {
                    assert(c.take(vx_seen.len() as int) =~= vx_seen);
                    let x = c[vx_seen.len() as int];
                    let y = x.at();
                }
            }
//@loop-end 0
            proof {
                let c = head(vx_at)->Child_0;
                assert(vx_seen.push(c) + walk(deserializer.dv()).children =~= walk(vx_d).children);
                fed_next::<A>(vx_seen, c, direct_a::<A>(), vx_v.0, __value0);
                fed_next::<B>(vx_seen, c, direct_b::<B>(), vx_v.1, __value1);
                fed_next::<C>(vx_seen, c, direct_c(), vx_v.2, __value2);
                vx_seen = vx_seen.push(c);
            }
//@assoc Accumulator
//@assoc KIND
//@endimpl
