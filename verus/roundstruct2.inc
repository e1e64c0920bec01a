
// ---- names by a rule

impl<'xml, A: Value<'xml>, B: Round<'xml>, C: Round<'xml>> Value<'xml> for Cased<A, B, C> {
    open spec fn good(&self) -> bool {
        &&& attribute_good(&self.first_name, IdV { ns: ""@, name: "FIRST-NAME"@ })
        &&& self.last_name.good() && self.r#type.good()
        &&& apart::<B, C>(IdV { ns: "urn:cased"@, name: "LAST-NAME"@ }, IdV { ns: "urn:cased"@, name: "TYPE"@ })
    }
    open spec fn same(&self, w: &Self) -> bool { self.first_name.same(&w.first_name) && self.last_name.same(&w.last_name) && self.r#type.same(&w.r#type) }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}
impl<'xml, A: Value<'xml>, B: Round<'xml>, C: Round<'xml>> Struct<'xml> for Cased<A, B, C> {
    open spec fn name(&self) -> IdV { IdV { ns: "urn:cased"@, name: "Cased"@ } }
    open spec fn made(&self, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>) -> bool {
        exists|x: Seq<EventV>, y: Seq<EventV>| content == x + y && #[trigger] cased_is(self, stack, element_events(tag, ats, content), tag, ats, x, y)
    }
    proof fn law_shape(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> (r: (LevelV, Seq<AttrV>, Seq<EventV>)) {
        let (tag, a, x, y) = choose|tag: LevelV, a: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>| #[trigger] cased_is(self, stack, ev, tag, a, x, y);
        self.last_name.law_bal(Some(IdV { ns: "urn:cased"@, name: "LAST-NAME"@ }), stack.push(tag), x);
        self.r#type.law_bal(Some(IdV { ns: "urn:cased"@, name: "TYPE"@ }), stack.push(tag), y);
        bal_add(0, x, 0, y);
        (tag, a, x + y)
    }
    proof fn law_named(&self, field: Option<IdV>) {}
    proof fn law_inner(&self, d: D<'xml>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>) {
        hide(walk); hide(head); hide(fed);
        let (x, y) = choose|x: Seq<EventV>, y: Seq<EventV>| content == x + y && #[trigger] cased_is(self, stack, element_events(tag, ats, content), tag, ats, x, y);
        let ia = IdV { ns: ""@, name: "FIRST-NAME"@ };
        let (ib, ic) = (IdV { ns: "urn:cased"@, name: "LAST-NAME"@ }, IdV { ns: "urn:cased"@, name: "TYPE"@ });
        let log = content.push(EventV::End) + rest;
        let end = seq![EventV::End] + rest;
        nodes_add(ats, Seq::empty());
        assert(log =~= x + (y + end));
        let (ka, d1) = attr_kids(&self.first_name, d, ia, ats, Seq::empty(), log);
        let (kb, d2) = self.last_name.law_kids(d1, ib, x, y + end);
        let (kc, d3) = self.r#type.law_kids(d2, ic, y, end);
        head_end(d3, rest);
        walk_at(d3);
        kids_walk(d, ka, d1);
        kids_walk(d1, kb, d2);
        kids_walk(d2, kc, d3);
        let w = walk(d);
        let none = Seq::<Child<'xml>>::empty();
        assert(w.children =~= none + ka + (kb + kc));
        assert(w.children =~= ka + kb + kc);
        assert(w.children =~= ka + kb + kc + none);
        own::<A>(none, ka, kb + kc, cased_a::<A>(), |v: A| self.first_name.same(&v));
        own::<B>(ka, kb, kc, cased_b::<B>(), |v: B| self.last_name.same(&v));
        own::<C>(ka + kb, kc, none, cased_c::<B, C>(), |v: C| self.r#type.same(&v));
        gets_gives::<A>(w.children, cased_a::<A>(), |v: A| self.first_name.same(&v));
        gets_gives::<B>(w.children, cased_b::<B>(), |v: B| self.last_name.same(&v));
        gets_gives::<C>(w.children, cased_c::<B, C>(), |v: C| self.r#type.same(&v));
    }
}
impl<'xml, A: Value<'xml>, B: Round<'xml>, C: Round<'xml>> Round<'xml> for Cased<A, B, C> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { struct_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { struct_kids(self, d, id, ev, rest) }
}

// ---- direct text

/// the values of direct text
pub open spec fn direct_good<'xml, T: Value<'xml>>(v: &T) -> bool {
    v.good() && (v.there() ==> v.text() is Some && (v.text()->0.len() > 0 || blank_is_none::<T>()))
}

/// a text at the end of the content
pub proof fn direct_kids<'xml, T: Value<'xml>>(v: &T, d: D<'xml>, y: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>))
    requires direct_good(v), events_of(v, None, d.s.stack, y), inside(d, Seq::empty(), y + (seq![EventV::End] + rest)),
    ensures
        kids(d, r.0, r.1), inside(r.1, Seq::empty(), seq![EventV::End] + rest), beside(d, r.1),
        forall|i: int| 0 <= i < r.0.len() ==> (#[trigger] r.0[i]) is Text,
        r.0.len() > 0 ==> gets::<T>(r.0, all(), |w: T| v.same(&w)),
        r.0.len() == 0 && v.there() ==> v.text() == Some(Seq::<char>::empty()) && blank_is_none::<T>(),
{
    let end = seq![EventV::End] + rest;
    let none = Seq::<Child<'xml>>::empty();
    if v.there() {
        let t = v.text()->0;
        let x = choose|x: Seq<char>| #[trigger] says(x, t) && y == chars(x);
        if x.len() > 0 {
            let e = head_text(d, x, end);
            let c = choose|c: CowV| head(d) == Head::Child(Child::Text(#[trigger] front(e, NodeV::Text(c))), e) && Some(c.text) == dec(x);
            let f = front(e, NodeV::Text(c));
            assert(text_is(f, t));
            v.law_text(f, t);
            gets_one::<T>(Child::Text(f), |w: T| v.same(&w));
            kids_one(d, Child::Text(f), e);
            (seq![Child::Text(f)], e)
        } else {
            assert(y + end =~= end);
            assert(t =~= Seq::<char>::empty());
            (none, d)
        }
    } else {
        v.law_empty(None, d.s.stack, y);
        assert(y + end =~= end);
        (none, d)
    }
}

pub proof fn direct_bal<'xml, T: Value<'xml>>(v: &T, stack: Seq<LevelV>, y: Seq<EventV>)
    requires direct_good(v), events_of(v, None, stack, y),
    ensures bal(0, y),
{
    if v.there() { text_bal(v, None, stack, y); } else { v.law_empty(None, stack, y); }
}

/// the empty text is read from an element without a text
pub proof fn direct_empty<'xml, T: Value<'xml>>(v: &T, cs: Seq<Child<'xml>>, at: D<'xml>)
    requires
        direct_good(v), cs.filter(direct_c()) == Seq::<Child<'xml>>::empty(),
        v.there() ==> v.text() == Some(Seq::<char>::empty()) && blank_is_none::<T>(),
    ensures
        forall|x: Option<T>| #[trigger] gives::<T>(cs, direct_c(), x) ==> if v.there() { x is None } else { x is Some && v.same(&x->0) },
        v.there() ==> taken::<T>(empty_text(at), |w: T| v.same(&w)),
        forall|e: ErrV| !#[trigger] refused::<T>(cs, direct_c(), e),
{
    let none = Seq::<Child<'xml>>::empty();
    assert(none.filter(direct_c()) =~= none) by { filter_nothing(none, direct_c()); }
    assert forall|x: Option<T>| #[trigger] gives::<T>(cs, direct_c(), x) implies if v.there() { x is None } else { x is Some && v.same(&x->0) } by {
        let b = choose|b: T::Accumulator| #[trigger] fed::<T>(cs, direct_c(), b) && b.done() == x;
        fed_same::<T>(cs, none, direct_c(), b);
        assert(b.blank());
        if !v.there() { v.law_absent(b); }
    }
    if v.there() {
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
        assert(text_is(empty_text(at), Seq::<char>::empty()));
        v.law_text(empty_text(at), Seq::<char>::empty());
    }
    assert forall|e: ErrV| !#[trigger] refused::<T>(cs, direct_c(), e) by {
        if refused::<T>(cs, direct_c(), e) {
            let k = choose|k: int, a: T::Accumulator| 0 <= k < cs.len() && direct_c()(cs[k]) && fed::<T>(cs.take(k), direct_c(), a) && #[trigger] T::fails(cs[k].at(), a, e);
            filter_one(cs, k.0, direct_c());
        }
    }
}

proof fn filter_one<A>(s: Seq<A>, k: int, f: spec_fn(A) -> bool)
    requires 0 <= k < s.len(), f(s[k]),
    ensures s.filter(f).len() > 0,
{
    let (a, b) = (s.take(k), s.skip(k + 1));
    assert(s =~= a.push(s[k]) + b);
    filter_add(a.push(s[k]), b, f);
    filter_push(a, s[k], f);
}

/// the field of the direct text
pub proof fn direct_all<'xml, T: Value<'xml>>(v: &T, pre: Seq<Child<'xml>>, kc: Seq<Child<'xml>>, w: Walk<'xml>)
    requires
        direct_good(v), w.children == pre + kc,
        forall|i: int| 0 <= i < pre.len() ==> !((#[trigger] pre[i]) is Text),
        forall|i: int| 0 <= i < kc.len() ==> (#[trigger] kc[i]) is Text,
        kc.len() > 0 ==> gets::<T>(kc, all(), |x: T| v.same(&x)),
        kc.len() == 0 && v.there() ==> v.text() == Some(Seq::<char>::empty()) && blank_is_none::<T>(),
    ensures
        forall|x: Option<T>| #[trigger] text_read::<T>(w, x) ==> x is Some && v.same(&x->0),
        forall|e: ErrV| !#[trigger] refused::<T>(w.children, direct_c(), e),
        forall|e: ErrV| !(gives::<T>(w.children, direct_c(), None::<T>) && #[trigger] one_fails::<T>(empty_text(w.at), e)),
{
    hide(fed);
    let none = Seq::<Child<'xml>>::empty();
    let ok = |x: T| v.same(&x);
    if kc.len() > 0 {
        assert(w.children =~= pre + kc + none);
        own::<T>(pre, kc, none, direct_c(), ok);
        gets_gives::<T>(w.children, direct_c(), ok);
    } else {
        assert(w.children =~= pre);
        filter_nothing(w.children, direct_c());
        direct_empty(v, w.children, w.at);
    }
}

impl<'xml, A: Value<'xml>, B: Round<'xml>, C: Value<'xml>> Value<'xml> for Direct<A, B, C> {
    open spec fn good(&self) -> bool { attribute_good(&self.a, IdV { ns: ""@, name: "a"@ }) && self.b.good() && direct_good(&self.c) }
    open spec fn same(&self, w: &Self) -> bool { self.a.same(&w.a) && self.b.same(&w.b) && self.c.same(&w.c) }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}
impl<'xml, A: Value<'xml>, B: Round<'xml>, C: Value<'xml>> Struct<'xml> for Direct<A, B, C> {
    open spec fn name(&self) -> IdV { IdV { ns: ""@, name: "Direct"@ } }
    open spec fn made(&self, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>) -> bool {
        exists|x: Seq<EventV>, y: Seq<EventV>| content == x + y && #[trigger] direct_is(self, stack, element_events(tag, ats, content), tag, ats, x, y)
    }
    proof fn law_shape(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> (r: (LevelV, Seq<AttrV>, Seq<EventV>)) {
        let (tag, a, x, y) = choose|tag: LevelV, a: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>| #[trigger] direct_is(self, stack, ev, tag, a, x, y);
        self.b.law_bal(Some(IdV { ns: ""@, name: "b"@ }), stack.push(tag), x);
        direct_bal(&self.c, stack.push(tag), y);
        bal_add(0, x, 0, y);
        (tag, a, x + y)
    }
    proof fn law_named(&self, field: Option<IdV>) {}
    proof fn law_inner(&self, d: D<'xml>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>) {
        hide(walk); hide(head); hide(fed);
        let (x, y) = choose|x: Seq<EventV>, y: Seq<EventV>| content == x + y && #[trigger] direct_is(self, stack, element_events(tag, ats, content), tag, ats, x, y);
        let (ia, ib) = (IdV { ns: ""@, name: "a"@ }, IdV { ns: ""@, name: "b"@ });
        let log = content.push(EventV::End) + rest;
        let end = seq![EventV::End] + rest;
        nodes_add(ats, Seq::empty());
        assert(log =~= x + (y + end));
        let (ka, d1) = attr_kids(&self.a, d, ia, ats, Seq::empty(), log);
        let (kb, d2) = self.b.law_kids(d1, ib, x, y + end);
        let (kc, d3) = direct_kids(&self.c, d2, y, rest);
        head_end(d3, rest);
        walk_at(d3);
        kids_walk(d, ka, d1);
        kids_walk(d1, kb, d2);
        kids_walk(d2, kc, d3);
        let w = walk(d);
        let none = Seq::<Child<'xml>>::empty();
        assert(w.children =~= none + ka + (kb + kc));
        assert(w.children =~= ka + kb + kc);
        assert(w.children =~= (ka + kb) + kc + none);
        own::<A>(none, ka, kb + kc, direct_a::<A>(), |v: A| self.a.same(&v));
        own::<B>(ka, kb, kc, direct_b::<B>(), |v: B| self.b.same(&v));
        gets_gives::<A>(w.children, direct_a::<A>(), |v: A| self.a.same(&v));
        gets_gives::<B>(w.children, direct_b::<B>(), |v: B| self.b.same(&v));
        assert(w.children =~= (ka + kb) + kc);
        direct_all(&self.c, ka + kb, kc, w);
        assert(w.end is None);
        assert forall|a: Option<Self>, e: D<'xml>, b: Option<Self>| a is None && #[trigger] Self::reads(d, a, e, b) implies b is Some && self.same(&b->0) && e.done && e.first is None by {
            assert(self.c.same(&(b->0).c));
        }
        assert forall|a: Option<Self>, e: ErrV| a is None implies !#[trigger] Self::fails(d, a, e) by {}
    }
}
impl<'xml, A: Value<'xml>, B: Round<'xml>, C: Value<'xml>> Round<'xml> for Direct<A, B, C> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { struct_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { struct_kids(self, d, id, ev, rest) }
}

// ---- one of several types

impl<'xml, A: Struct<'xml>, B: Struct<'xml>> Value<'xml> for Either<A, B> {
    /// the name of a value of the second type is not one of the first
    open spec fn good(&self) -> bool {
        match *self { Either::Left(x) => x.good(), Either::Right(x) => x.good() && !A::named(x.name(), None) }
    }
    open spec fn same(&self, w: &Self) -> bool {
        match (*self, *w) { (Either::Left(x), Either::Left(y)) => x.same(&y), (Either::Right(x), Either::Right(y)) => x.same(&y), _ => false }
    }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}
impl<'xml, A: Struct<'xml>, B: Struct<'xml>> Struct<'xml> for Either<A, B> {
    open spec fn name(&self) -> IdV { match *self { Either::Left(x) => x.name(), Either::Right(x) => x.name() } }
    open spec fn made(&self, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>) -> bool {
        match *self { Either::Left(x) => x.made(stack, tag, ats, content), Either::Right(x) => x.made(stack, tag, ats, content) }
    }
    proof fn law_shape(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> (r: (LevelV, Seq<AttrV>, Seq<EventV>)) {
        match *self {
            Either::Left(x) => { x.law_named(None); assert(events_of(&x, None, stack, ev)); x.law_shape(None, stack, ev) },
            Either::Right(x) => { x.law_named(None); assert(events_of(&x, None, stack, ev)); x.law_shape(None, stack, ev) },
        }
    }
    proof fn law_named(&self, field: Option<IdV>) {
        match *self { Either::Left(x) => x.law_named(field), Either::Right(x) => x.law_named(field) }
    }
    proof fn law_inner(&self, d: D<'xml>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>) {
        assert(own_name(d) == self.name());
        match *self {
            Either::Left(x) => { x.law_named(None); x.law_inner(d, stack, tag, ats, content, rest); },
            Either::Right(x) => { x.law_named(None); x.law_inner(d, stack, tag, ats, content, rest); },
        }
    }
}
impl<'xml, A: Struct<'xml>, B: Struct<'xml>> Round<'xml> for Either<A, B> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { struct_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { struct_kids(self, d, id, ev, rest) }
}
