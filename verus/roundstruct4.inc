
// ---- a field that shares the input, and a field with a function of its own

/// the element of a text, and what a function that reads it to its end finds there
pub proof fn lent_head<'a>(t: Seq<char>, id: IdV, d: D<'a>, ev: Seq<EventV>, more: Seq<EventV>) -> (r: (D<'a>, D<'a>))
    requires text_renders(t, Some(id), d.s.stack, ev), inside(d, Seq::empty(), ev + more),
    ensures
        head(d) == Head::Child(Child::Elem(id, r.0), r.1), inside(r.1, Seq::empty(), more), beside(d, r.1),
        string_of(r.0) matches Some(c) && c.text == t,
        forall|e: ErrV| !#[trigger] borrow_fails(r.0, false, e),
{
    let (x, tag) = choose|x: Seq<char>, tag: LevelV| #[trigger] says(x, t) && ev == #[trigger] element_events(tag, Seq::empty(), chars(x))
        && element_name(d.s.stack.push(tag), element_of(tag)) == Some(id);
    bal_chars(x);
    let (f, e) = head_elem(d, tag, Seq::empty(), chars(x), more, id);
    assert(attr_nodes(Seq::empty()) =~= Seq::<NodeV>::empty());
    let end = seq![EventV::End] + more;
    assert(chars(x).push(EventV::End) + more =~= chars(x) + end);
    text_inside(f, x, t, end);
    head_keeps(d);
    kids_one(d, Child::Elem(id, f), e);
    kids_found(d, seq![Child::Elem(id, f)], e);
    assert(found(seq![Child::Elem(id, f)][0]));
    take_moves(f);
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    assert(t.len() == 0 ==> t =~= ""@);
    (f, e)
}

pub proof fn text_events<'a>(t: Seq<char>, id: IdV, stack: Seq<LevelV>, ev: Seq<EventV>)
    requires text_renders(t, Some(id), stack, ev),
    ensures bal(0, ev),
{
    let (x, tag) = choose|x: Seq<char>, tag: LevelV| #[trigger] says(x, t) && ev == #[trigger] element_events(tag, Seq::empty(), chars(x))
        && element_name(stack.push(tag), element_of(tag)) == Some(id);
    bal_chars(x);
    bal_element(tag, Seq::empty(), chars(x));
}

/// of two children the first one is shared, the second one is read by a function
pub proof fn two_read<'a>(cs: Seq<Child<'a>>, a: Seq<char>, b: Seq<char>)
    requires
        cs.len() == 2, borrowing_a()(cs[0]), !borrowing_a()(cs[1]), borrowing_b()(cs[1]), !borrowing_b()(cs[0]),
        string_of(cs[0].at()) matches Some(c) && c.text == a, string_of(cs[1].at()) matches Some(c) && c.text == b,
        forall|e: ErrV| !#[trigger] borrow_fails(cs[0].at(), false, e),
        forall|e: ErrV| !#[trigger] borrow_fails(cs[1].at(), false, e),
    ensures
        forall|x: Option<CowV>| #[trigger] lent(cs, borrowing_a(), x) ==> x is Some && x->0.text == a,
        forall|x: Option<String>| #[trigger] gives(cs, borrowing_b(), x) ==> x is Some && x->0@ == b,
        forall|e: ErrV| !#[trigger] lent_refused(cs, borrowing_a(), e),
        forall|e: ErrV| !#[trigger] own_refused(cs, borrowing_b(), e),
{
    let one = cs.drop_last();
    assert(one.drop_last() =~= Seq::<Child<'a>>::empty());
    assert(one.last() == cs[0] && cs.last() == cs[1]);
    assert(cs.take(0) =~= Seq::<Child<'a>>::empty() && cs.take(1) =~= one);
    reveal_with_fuel(lent, 3);
    assert forall|x: Option<String>| #[trigger] gives(cs, borrowing_b(), x) implies x is Some && x->0@ == b by {
        let acc = choose|acc: Option<String>| #[trigger] fed::<String>(cs, borrowing_b(), acc) && acc.done() == x;
        let (p, e) = choose|p: Option<String>, e: D<'a>| fed::<String>(cs.drop_last(), borrowing_b(), p) && #[trigger] <String as FromXml>::reads(cs.last().at(), p, e, acc);
    }
    assert forall|e: ErrV| !#[trigger] lent_refused(cs, borrowing_a(), e) by {
        if lent_refused(cs, borrowing_a(), e) {
            let (k, x) = choose|k: int, x: Option<CowV>| 0 <= k < cs.len() && borrowing_a()(cs[k]) && #[trigger] lent(cs.take(k), borrowing_a(), x) && borrow_fails(cs[k].at(), x is Some, e);
            assert(k == 0);
        }
    }
    assert forall|e: ErrV| !#[trigger] own_refused(cs, borrowing_b(), e) by {
        if own_refused(cs, borrowing_b(), e) {
            let (k, x) = choose|k: int, x: Option<String>| 0 <= k < cs.len() && borrowing_b()(cs[k]) && fed::<String>(cs.take(k), borrowing_b(), x) && #[trigger] borrow_fails(cs[k].at(), x is Some, e);
            assert(k == 1);
            assert(fed::<String>(one.drop_last(), borrowing_b(), x));
        }
    }
}

impl<'xml> Value<'xml> for Borrowing<'xml> {
    open spec fn good(&self) -> bool { true }
    open spec fn same(&self, w: &Self) -> bool { cow(w.a) == cow(self.a) && w.b@ == self.b@ }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}
impl<'xml> Struct<'xml> for Borrowing<'xml> {
    open spec fn name(&self) -> IdV { IdV { ns: ""@, name: "Borrowing"@ } }
    open spec fn made(&self, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>) -> bool {
        exists|x: Seq<EventV>, y: Seq<EventV>| ats.len() == 0 && content == x + y && #[trigger] borrowing_is(self, stack, element_events(tag, ats, content), tag, x, y)
    }
    proof fn law_shape(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> (r: (LevelV, Seq<AttrV>, Seq<EventV>)) {
        let (tag, x, y) = choose|tag: LevelV, x: Seq<EventV>, y: Seq<EventV>| #[trigger] borrowing_is(self, stack, ev, tag, x, y);
        text_events(cow(self.a), IdV { ns: ""@, name: "a"@ }, stack.push(tag), x);
        text_events(self.b@, IdV { ns: ""@, name: "b"@ }, stack.push(tag), y);
        bal_add(0, x, 0, y);
        (tag, Seq::empty(), x + y)
    }
    proof fn law_named(&self, field: Option<IdV>) {}
    proof fn law_inner(&self, d: D<'xml>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>) {
        hide(walk); hide(head); hide(fed); hide(lent);
        let (x, y) = choose|x: Seq<EventV>, y: Seq<EventV>| ats.len() == 0 && content == x + y && #[trigger] borrowing_is(self, stack, element_events(tag, ats, content), tag, x, y);
        let (ia, ib) = (IdV { ns: ""@, name: "a"@ }, IdV { ns: ""@, name: "b"@ });
        let end = seq![EventV::End] + rest;
        assert(content.push(EventV::End) + rest =~= x + (y + end));
        assert(attr_nodes(ats) =~= Seq::<NodeV>::empty());
        let (f, d1) = lent_head(cow(self.a), ia, d, x, y + end);
        let (g, d2) = lent_head(self.b@, ib, d1, y, end);
        let (ca, cb) = (Child::Elem(ia, f), Child::Elem(ib, g));
        kids_one(d, ca, d1);
        kids_one(d1, cb, d2);
        head_end(d2, rest);
        walk_at(d2);
        kids_walk(d, seq![ca], d1);
        kids_walk(d1, seq![cb], d2);
        let w = walk(d);
        assert(w.children =~= seq![ca, cb]);
        reveal_strlit("a");
        reveal_strlit("b");
        assert("a"@[0] != "b"@[0]);
        two_read(w.children, cow(self.a), self.b@);
    }
}
impl<'xml> Round<'xml> for Borrowing<'xml> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { struct_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { struct_kids(self, d, id, ev, rest) }
}

// ---- the same without an element around them

type LentAcc<'xml> = <Lent<'xml> as FromXml<'xml>>::Accumulator;

impl<'xml> Value<'xml> for Lent<'xml> {
    open spec fn good(&self) -> bool { true }
    open spec fn same(&self, w: &Self) -> bool { cow(w.a) == cow(self.a) && w.b@ == self.b@ }
    open spec fn count(&self) -> int { 2 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}
impl<'xml> Round<'xml> for Lent<'xml> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {
        let (x, y) = choose|x: Seq<EventV>, y: Seq<EventV>| #[trigger] lent_is(self, stack, ev, x, y);
        text_events(cow(self.a), lent_a(), stack, x);
        text_events(self.b@, lent_b(), stack, y);
        bal_add(0, x, 0, y);
    }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) {
        hide(drain);
        let (x, y) = choose|x: Seq<EventV>, y: Seq<EventV>| #[trigger] lent_is(self, d.s.stack, ev, x, y);
        assert(ev + rest =~= x + (y + rest));
        let (f, d1) = lent_head(cow(self.a), lent_a(), d, x, y + rest);
        let (g, d2) = lent_head(self.b@, lent_b(), d1, y, rest);
        let (ca, cb) = (Child::Elem(lent_a(), f), Child::Elem(lent_b(), g));
        kids_one(d, ca, d1);
        kids_one(d1, cb, d2);
        kids_add(d, seq![ca], d1, seq![cb], d2);
        let cs = seq![ca, cb];
        assert(cs =~= seq![ca] + seq![cb]);
        kids_found(d, cs, d2);
        assert(found(cs[0]) && found(cs[1]));
        reveal_strlit("a");
        reveal_strlit("b");
        assert("a"@[0] != "b"@[0]);
        let one = cs.drop_last();
        assert(one.drop_last() =~= Seq::<Child<'xml>>::empty());
        assert(one.last() == cs[0] && cs.last() == cs[1]);
        assert(cs.take(0) =~= Seq::<Child<'xml>>::empty() && cs.take(1) =~= one);
        assert(all::<'xml>()(cs[0]) && all::<'xml>()(cs[1]));
        assert forall|b: LentAcc<'xml>| #[trigger] fed::<Self>(one, all(), b) implies b.a.inner is Some && cow(b.a.inner->0) == cow(self.a) && b.b is None by {
            let (p, e) = choose|p: LentAcc<'xml>, e: D<'xml>| fed::<Self>(one.drop_last(), all(), p) && #[trigger] Self::reads(one.last().at(), p, e, b);
        }
        assert forall|b: LentAcc<'xml>| #[trigger] fed::<Self>(cs, all(), b) implies b.done() is Some && self.same(&b.done()->0) by {
            let (p, e) = choose|p: LentAcc<'xml>, e: D<'xml>| fed::<Self>(cs.drop_last(), all(), p) && #[trigger] Self::reads(cs.last().at(), p, e, b);
            assert(owns(g, p.b, e, b.b));
        }
        assert forall|e: ErrV| !#[trigger] refused::<Self>(cs, all(), e) by {
            if refused::<Self>(cs, all(), e) {
                let (k, a) = choose|k: int, a: LentAcc<'xml>| 0 <= k < cs.len() && all::<'xml>()(cs[k]) && fed::<Self>(cs.take(k), all(), a) && #[trigger] Self::fails(cs[k].at(), a, e);
                if k == 0 { assert(a.blank()); } else { assert(k == 1); }
            }
        }
        (cs, d2)
    }
}
