
// ---- values that are written as one element ------------------------------------------------------------------------------

/// read to the end of the element
pub open spec fn ends<'xml, T: FromXml<'xml>>(d: D<'xml>) -> bool {
    forall|a: T::Accumulator, e: D<'xml>, b: T::Accumulator| a.blank() && #[trigger] T::reads(d, a, e, b) ==> e.done && e.first is None
}

/// the reader is at the beginning of an element with these attributes and this content
pub open spec fn at_element<'a>(d: D<'a>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>) -> bool {
    &&& inside(d, attr_nodes(ats), content.push(EventV::End) + rest)
    &&& d.s.stack == stack.push(tag)
}

pub trait Struct<'xml>: Value<'xml> {
    /// the name of its element
    spec fn name(&self) -> IdV;
    /// this tag, these attributes and this content are written for it
    spec fn made(&self, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>) -> bool;

    proof fn law_shape(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> (r: (LevelV, Seq<AttrV>, Seq<EventV>))
        requires self.good(), self.renders(field, stack, ev),
        ensures
            self.text() is None, ev == element_events(r.0, r.1, r.2), self.made(stack, r.0, r.1, r.2), bal(0, r.2),
            element_name(stack.push(r.0), element_of(r.0)) == Some(self.name());

    proof fn law_named(&self, field: Option<IdV>)
        requires self.good(),
        ensures Self::named(self.name(), field), self.count() == 1, self.there(), self.text() is None;

    proof fn law_inner(&self, d: D<'xml>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>)
        requires
            self.good(), self.made(stack, tag, ats, content), at_element(d, stack, tag, ats, content, rest), bal(0, content),
            element_name(d.s.stack, d.parent) == Some(self.name()),
        ensures taken::<Self>(d, |w: Self| self.same(&w)), ends::<Self>(d);
}

pub proof fn struct_bal<'xml, T: Struct<'xml>>(v: &T, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>)
    requires v.good(), v.renders(field, stack, ev),
    ensures bal(0, ev),
{
    let (tag, ats, content) = v.law_shape(field, stack, ev);
    bal_element(tag, ats, content);
}

/// the element comes next
pub proof fn struct_head<'xml, T: Struct<'xml>>(v: &T, d: D<'xml>, field: Option<IdV>, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (D<'xml>, D<'xml>))
    requires v.good(), inside(d, Seq::empty(), ev + rest), v.renders(field, d.s.stack, ev),
    ensures
        head(d) == Head::Child(Child::Elem(v.name(), r.0), r.1),
        inside(r.1, Seq::empty(), rest), beside(d, r.1),
        taken::<T>(r.0, |w: T| v.same(&w)), ends::<T>(r.0),
{
    let (tag, ats, content) = v.law_shape(field, d.s.stack, ev);
    let (f, e) = head_elem(d, tag, ats, content, rest, v.name());
    v.law_inner(f, d.s.stack, tag, ats, content, rest);
    (f, e)
}

pub proof fn struct_kids<'xml, T: Struct<'xml>>(v: &T, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>))
    requires v.good(), inside(d, Seq::empty(), ev + rest), v.renders(Some(id), d.s.stack, ev),
    ensures
        kids(d, r.0, r.1), inside(r.1, Seq::empty(), rest), beside(d, r.1), r.0.len() == v.count(),
        forall|i: int| 0 <= i < r.0.len() ==> (#[trigger] r.0[i]) is Elem && T::named(r.0[i]->Elem_0, Some(id)),
        gets::<T>(r.0, all(), |w: T| v.same(&w)),
{
    let (f, e) = struct_head(v, d, Some(id), ev, rest);
    v.law_named(Some(id));
    let c = Child::Elem(v.name(), f);
    gets_one::<T>(c, |w: T| v.same(&w));
    kids_one(d, c, e);
    (seq![c], e)
}

/// no name belongs to both fields
pub open spec fn apart<'xml, A: FromXml<'xml>, B: FromXml<'xml>>(a: IdV, b: IdV) -> bool {
    forall|n: IdV| !(#[trigger] A::named(n, Some(a)) && B::named(n, Some(b)))
}
/// the values of an attribute
pub open spec fn attribute_good<'xml, T: Value<'xml>>(v: &T, id: IdV) -> bool { v.good() && (v.there() ==> v.text() is Some && T::place(id) == id) }

pub proof fn nodes_add(a: Seq<AttrV>, b: Seq<AttrV>)
    ensures attr_nodes(a + b) == attr_nodes(a) + attr_nodes(b), attr_nodes(a) + attr_nodes(Seq::empty()) == attr_nodes(a), attr_nodes(Seq::empty()) == Seq::<NodeV>::empty(),
{
    assert(attr_nodes(a + b) =~= attr_nodes(a) + attr_nodes(b));
    assert(attr_nodes(a) + attr_nodes(Seq::empty()) =~= attr_nodes(a));
    assert(attr_nodes(Seq::empty()) =~= Seq::<NodeV>::empty());
}

/// a field that got its value has it
pub proof fn gets_gives<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, goes: Goes<'xml>, ok: spec_fn(T) -> bool)
    requires gets::<T>(cs, goes, ok),
    ensures forall|x: Option<T>| #[trigger] gives::<T>(cs, goes, x) ==> x is Some && ok(x->0),
{
}

// ---- named fields

impl<'xml, A: Value<'xml>, B: Value<'xml>, C: Round<'xml>, D1: Round<'xml>> Value<'xml> for Named<A, B, C, D1> {
    open spec fn good(&self) -> bool {
        &&& attribute_good(&self.a, IdV { ns: ""@, name: "a"@ }) && attribute_good(&self.b, IdV { ns: "urn:other"@, name: "b"@ })
        &&& self.c.good() && self.d.good()
        &&& apart::<A, B>(IdV { ns: ""@, name: "a"@ }, IdV { ns: "urn:other"@, name: "b"@ })
        &&& apart::<C, D1>(IdV { ns: "urn:shapes"@, name: "c"@ }, IdV { ns: "urn:own"@, name: "dee"@ })
    }
    open spec fn same(&self, w: &Self) -> bool { self.a.same(&w.a) && self.b.same(&w.b) && self.c.same(&w.c) && self.d.same(&w.d) }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}
impl<'xml, A: Value<'xml>, B: Value<'xml>, C: Round<'xml>, D1: Round<'xml>> Struct<'xml> for Named<A, B, C, D1> {
    open spec fn name(&self) -> IdV { IdV { ns: "urn:shapes"@, name: "named"@ } }
    open spec fn made(&self, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>) -> bool {
        exists|a: Seq<AttrV>, b: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>| ats == a + b && content == x + y
            && #[trigger] named_is(self, stack, element_events(tag, ats, content), tag, a, b, x, y)
    }
    proof fn law_shape(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> (r: (LevelV, Seq<AttrV>, Seq<EventV>)) {
        let (tag, a, b, x, y) = choose|tag: LevelV, a: Seq<AttrV>, b: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>| #[trigger] named_is(self, stack, ev, tag, a, b, x, y);
        self.c.law_bal(Some(IdV { ns: "urn:shapes"@, name: "c"@ }), stack.push(tag), x);
        self.d.law_bal(Some(IdV { ns: "urn:own"@, name: "dee"@ }), stack.push(tag), y);
        bal_add(0, x, 0, y);
        (tag, a + b, x + y)
    }
    proof fn law_named(&self, field: Option<IdV>) {}
    proof fn law_inner(&self, d: D<'xml>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>) {
        hide(walk); hide(head); hide(fed);
        let (a, b, x, y) = choose|a: Seq<AttrV>, b: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>| ats == a + b && content == x + y
            && #[trigger] named_is(self, stack, element_events(tag, ats, content), tag, a, b, x, y);
        let (ia, ib) = (IdV { ns: ""@, name: "a"@ }, IdV { ns: "urn:other"@, name: "b"@ });
        let (ic, id) = (IdV { ns: "urn:shapes"@, name: "c"@ }, IdV { ns: "urn:own"@, name: "dee"@ });
        let log = content.push(EventV::End) + rest;
        let end = seq![EventV::End] + rest;
        nodes_add(a, b);
        nodes_add(b, Seq::empty());
        assert(log =~= x + (y + end));
        let (ka, d1) = attr_kids(&self.a, d, ia, a, attr_nodes(b), log);
        let (kb, d2) = attr_kids(&self.b, d1, ib, b, Seq::empty(), log);
        let (kc, d3) = self.c.law_kids(d2, ic, x, y + end);
        let (kd, d4) = self.d.law_kids(d3, id, y, end);
        head_end(d4, rest);
        walk_at(d4);
        kids_walk(d, ka, d1);
        kids_walk(d1, kb, d2);
        kids_walk(d2, kc, d3);
        kids_walk(d3, kd, d4);
        let w = walk(d);
        let none = Seq::<Child<'xml>>::empty();
        assert(w.children =~= none + ka + (kb + kc + kd));
        assert(w.children =~= ka + kb + (kc + kd));
        assert(w.children =~= ka + kb + kc + kd);
        assert(w.children =~= ka + kb + kc + kd + none);
        own::<A>(none, ka, kb + kc + kd, named_a::<A>(), |v: A| self.a.same(&v));
        own::<B>(ka, kb, kc + kd, named_b::<A, B>(), |v: B| self.b.same(&v));
        own::<C>(ka + kb, kc, kd, named_c::<C>(), |v: C| self.c.same(&v));
        own::<D1>(ka + kb + kc, kd, none, named_d::<C, D1>(), |v: D1| self.d.same(&v));
        gets_gives::<A>(w.children, named_a::<A>(), |v: A| self.a.same(&v));
        gets_gives::<B>(w.children, named_b::<A, B>(), |v: B| self.b.same(&v));
        gets_gives::<C>(w.children, named_c::<C>(), |v: C| self.c.same(&v));
        gets_gives::<D1>(w.children, named_d::<C, D1>(), |v: D1| self.d.same(&v));
    }
}
impl<'xml, A: Value<'xml>, B: Value<'xml>, C: Round<'xml>, D1: Round<'xml>> Round<'xml> for Named<A, B, C, D1> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { struct_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { struct_kids(self, d, id, ev, rest) }
}

// ---- an element without content

impl<'xml> Value<'xml> for Unit {
    open spec fn good(&self) -> bool { true }
    open spec fn same(&self, w: &Self) -> bool { *w == *self }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}
impl<'xml> Struct<'xml> for Unit {
    open spec fn name(&self) -> IdV { IdV { ns: "urn:shapes"@, name: "Unit"@ } }
    open spec fn made(&self, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>) -> bool { ats.len() == 0 && content.len() == 0 }
    proof fn law_shape(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> (r: (LevelV, Seq<AttrV>, Seq<EventV>)) {
        let tag = choose|tag: LevelV| tagged(stack, tag, "urn:shapes"@, "Unit"@) && ev == #[trigger] element_events(tag, Seq::empty(), Seq::empty());
        (tag, Seq::empty(), Seq::empty())
    }
    proof fn law_named(&self, field: Option<IdV>) {}
    proof fn law_inner(&self, d: D<'xml>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>) {
        drain_events(d.s, attr_nodes(ats), content, rest, 0, d.level);
    }
}
impl<'xml> Round<'xml> for Unit {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { struct_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { struct_kids(self, d, id, ev, rest) }
}
