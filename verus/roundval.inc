
// ---- values that are read back -------------------------------------------------------------------------------------------

pub open spec fn all<'a>() -> Goes<'a> { |c: Child<'a>| true }

/// from d, nothing else than such a value can be read, and it is not refused
pub open spec fn taken<'xml, T: FromXml<'xml>>(d: D<'xml>, ok: spec_fn(T) -> bool) -> bool {
    &&& forall|a: T::Accumulator, e: D<'xml>, b: T::Accumulator| a.blank() && #[trigger] T::reads(d, a, e, b) ==> b.done() is Some && ok(b.done()->0)
    &&& forall|a: T::Accumulator, e: ErrV| a.blank() ==> !#[trigger] T::fails(d, a, e)
}

/// the same for the children that go to a field
pub open spec fn gets<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, goes: Goes<'xml>, ok: spec_fn(T) -> bool) -> bool {
    &&& forall|b: T::Accumulator| #[trigger] fed::<T>(cs, goes, b) ==> b.done() is Some && ok(b.done()->0)
    &&& forall|e: ErrV| !#[trigger] refused::<T>(cs, goes, e)
}

/// the text, or (the empty one) no text
pub open spec fn text_is(d: D, t: Seq<char>) -> bool {
    match take(d).0 { Ok(Some(c)) => c.text == t, Ok(None) => t.len() == 0, Err(_) => false }
}

/// values with the laws of one text
pub trait Value<'xml>: FromXml<'xml> + ToXml {
    /// what is assumed of the value (and of its type)
    spec fn good(&self) -> bool;
    /// the value that was read has the same contents
    spec fn same(&self, w: &Self) -> bool;
    /// the elements that are written for it in a field
    spec fn count(&self) -> int;

    proof fn law_text(&self, d: D<'xml>, t: Seq<char>)
        requires self.good(), self.text() == Some(t), text_is(d, t),
        ensures taken::<Self>(d, |w: Self| self.same(&w));

    proof fn law_place(&self, id: IdV)
        requires self.text() is Some,
        ensures Self::named(Self::place(id), Some(id)), self.count() == 1, self.there();

    /// a value that is not there
    proof fn law_absent(&self, a: Self::Accumulator)
        requires self.good(), !self.there(), a.blank(),
        ensures a.done() is Some && self.same(&a.done()->0);

    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>)
        requires !self.there(), events_of(self, field, stack, ev),
        ensures ev.len() == 0;

    /// what is left is the rest of the element
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator)
        requires handed(d), Self::KIND is Scalar, Self::reads(d, a, e, b),
        ensures kept(d, e);
}

/// values in a field
pub trait Round<'xml>: Value<'xml> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>)
        requires self.good(), events_of(self, field, stack, ev),
        ensures bal(0, ev);

    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>))
        requires self.good(), inside(d, Seq::empty(), ev + rest), events_of(self, Some(id), d.s.stack, ev),
        ensures
            kids(d, r.0, r.1), inside(r.1, Seq::empty(), rest), beside(d, r.1), r.0.len() == self.count(),
            forall|i: int| 0 <= i < r.0.len() ==> (#[trigger] r.0[i]) is Elem && Self::named(r.0[i]->Elem_0, Some(id)),
            gets::<Self>(r.0, all(), |w: Self| self.same(&w));
}

// ---- lemmas about fields -------------------------------------------------------------------------------------------------

pub proof fn fed_all<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, goes: Goes<'xml>, b: T::Accumulator)
    requires forall|i: int| 0 <= i < cs.len() ==> goes(#[trigger] cs[i]), fed::<T>(cs, goes, b),
    ensures fed::<T>(cs, all(), b),
    decreases cs.len(),
{
    if cs.len() > 0 {
        let s = cs.drop_last();
        assert forall|i: int| 0 <= i < s.len() implies goes(#[trigger] s[i]) by { assert(s[i] == cs[i]); }
        assert(goes(cs[cs.len() - 1]));
        let (a, e) = choose|a: T::Accumulator, e: D<'xml>| fed::<T>(s, goes, a) && #[trigger] T::reads(cs.last().at(), a, e, b);
        fed_all::<T>(s, goes, a);
        assert(all::<'xml>()(cs.last()));
    }
}

proof fn filter_nothing<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !f(#[trigger] s[i]),
    ensures s.filter(f) == Seq::<A>::empty(),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !f(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        filter_nothing(s.drop_last(), f);
        assert(!f(s[s.len() - 1]));
    }
}

/// the children of a field among others
pub proof fn own<'xml, T: FromXml<'xml>>(pre: Seq<Child<'xml>>, cs: Seq<Child<'xml>>, post: Seq<Child<'xml>>, goes: Goes<'xml>, ok: spec_fn(T) -> bool)
    requires
        gets::<T>(cs, all(), ok),
        forall|i: int| 0 <= i < pre.len() ==> !goes(#[trigger] pre[i]),
        forall|i: int| 0 <= i < cs.len() ==> goes(#[trigger] cs[i]),
        forall|i: int| 0 <= i < post.len() ==> !goes(#[trigger] post[i]),
    ensures gets::<T>(pre + cs + post, goes, ok),
{
    let w = pre + cs + post;
    filter_nothing(pre, goes);
    filter_nothing(post, goes);
    filter_add(pre + cs, post, goes);
    filter_add(pre, cs, goes);
    assert(w.filter(goes) =~= cs.filter(goes));
    assert forall|b: T::Accumulator| #[trigger] fed::<T>(w, goes, b) implies b.done() is Some && ok(b.done()->0) by {
        fed_same::<T>(w, cs, goes, b);
        fed_all::<T>(cs, goes, b);
    }
    assert forall|e: ErrV| !#[trigger] refused::<T>(w, goes, e) by {
        if refused::<T>(w, goes, e) {
            let (k, a) = choose|k: int, a: T::Accumulator| 0 <= k < w.len() && goes(w[k]) && fed::<T>(w.take(k), goes, a) && #[trigger] T::fails(w[k].at(), a, e);
            let j = k - pre.len();
            if j < 0 { assert(w[k] == pre[k]); }
            if j >= cs.len() { assert(w[k] == post[j - cs.len()]); }
            assert(w[k] == cs[j]);
            let c = cs.take(j);
            assert(w.take(k) =~= pre + c);
            filter_add(pre, c, goes);
            assert(w.take(k).filter(goes) =~= c.filter(goes));
            fed_same::<T>(w.take(k), c, goes, a);
            assert forall|i: int| 0 <= i < c.len() implies goes(#[trigger] c[i]) by { assert(c[i] == cs[i]); }
            fed_all::<T>(c, goes, a);
            assert(all::<'xml>()(cs[j]));
            assert(refused::<T>(cs, all(), e));
        }
    }
}

/// one child, seen as the only child of a field
pub proof fn gets_one<'xml, T: FromXml<'xml>>(c: Child<'xml>, ok: spec_fn(T) -> bool)
    ensures gets::<T>(seq![c], all(), ok) <==> taken::<T>(c.at(), ok),
{
    let s = seq![c];
    let none = Seq::<Child<'xml>>::empty();
    assert(s.drop_last() =~= none && s.last() == c && s.take(0) =~= none);
    assert(all::<'xml>()(c));
    if taken::<T>(c.at(), ok) {
        assert forall|b: T::Accumulator| #[trigger] fed::<T>(s, all(), b) implies b.done() is Some && ok(b.done()->0) by {
            let (a, e) = choose|a: T::Accumulator, e: D<'xml>| fed::<T>(s.drop_last(), all(), a) && #[trigger] T::reads(s.last().at(), a, e, b);
            assert(a.blank());
        }
        assert forall|e: ErrV| !#[trigger] refused::<T>(s, all(), e) by {
            if refused::<T>(s, all(), e) {
                let (k, a) = choose|k: int, a: T::Accumulator| 0 <= k < s.len() && all::<'xml>()(s[k]) && fed::<T>(s.take(k), all(), a) && #[trigger] T::fails(s[k].at(), a, e);
                assert(a.blank());
            }
        }
    }
    if gets::<T>(s, all(), ok) {
        assert forall|a: T::Accumulator, e: D<'xml>, b: T::Accumulator| a.blank() && #[trigger] T::reads(c.at(), a, e, b) implies b.done() is Some && ok(b.done()->0) by {
            fed_none::<T>(all(), a);
            fed_step::<T>(none, c, all(), a, e, b);
            assert(none.push(c) =~= s);
        }
        assert forall|a: T::Accumulator, e: ErrV| a.blank() implies !#[trigger] T::fails(c.at(), a, e) by {
            if T::fails(c.at(), a, e) {
                fed_none::<T>(all(), a);
                assert(s[0] == c && fed::<T>(s.take(0), all(), a) && T::fails(s[0].at(), a, e));
                assert(refused::<T>(s, all(), e));
            }
        }
    }
}

/// no child
pub proof fn gets_none<'xml, T: FromXml<'xml>>(ok: spec_fn(T) -> bool)
    requires forall|a: T::Accumulator| #[trigger] a.blank() ==> a.done() is Some && ok(a.done()->0),
    ensures gets::<T>(Seq::<Child<'xml>>::empty(), all(), ok),
{
    let s = Seq::<Child<'xml>>::empty();
    assert forall|b: T::Accumulator| #[trigger] fed::<T>(s, all(), b) implies b.done() is Some && ok(b.done()->0) by { assert(b.blank()); }
}

/// a text up to the end of the element
pub proof fn text_inside<'a>(d: D<'a>, x: Seq<char>, t: Seq<char>, rest: Seq<EventV>)
    requires inside(d, Seq::empty(), chars(x) + rest), rest.len() > 0, rest[0] is End, dec(x) == Some(t),
    ensures text_is(d, t),
{
    let log = chars(x) + rest;
    next_decreases(d);
    if x.len() > 0 {
        run_at(log, x.len() as int);
        assert(text_of(log.subrange(0, x.len() as int)) =~= x);
        go_text(d.s, log);
    } else {
        assert(log =~= rest);
        go_end(d.s, log);
    }
}

/// an attribute for a field, or nothing
pub proof fn attr_kids<'xml, T: Value<'xml>>(v: &T, d: D<'xml>, id: IdV, sa: Seq<AttrV>, more: Seq<NodeV>, log: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>))
    requires
        v.good(), v.there() ==> v.text() is Some && T::place(id) == id,
        attribute_of(v, id, d.s.stack, sa), inside(d, attr_nodes(sa) + more, log),
    ensures
        kids(d, r.0, r.1), inside(r.1, more, log), beside(d, r.1),
        forall|i: int| 0 <= i < r.0.len() ==> (#[trigger] r.0[i]) is Attr && r.0[i]->Attr_0 == id && T::named(id, Some(id)),
        gets::<T>(r.0, all(), |w: T| v.same(&w)),
{
    let ats = attr_nodes(sa) + more;
    let ok = |w: T| v.same(&w);
    if v.there() {
        v.law_place(id);
        let t = v.text()->0;
        let n = attr_node(sa[0]);
        assert(ats[0] == n);
        assert(ats.drop_first() =~= more);
        let e = head_attr(d, ats, log, id);
        let f = front(e, NodeV::AttributeValue(n->Attribute_value));
        let c = Child::Attr(id, f);
        assert(text_is(f, t));
        v.law_text(f, t);
        gets_one::<T>(c, ok);
        kids_one(d, c, e);
        (seq![c], e)
    } else {
        assert(ats =~= more);
        assert forall|a: T::Accumulator| #[trigger] a.blank() implies a.done() is Some && ok(a.done()->0) by { v.law_absent(a); }
        gets_none::<T>(ok);
        (Seq::empty(), d)
    }
}

/// an element for a field that contains a text
pub proof fn text_kids<'xml, T: Value<'xml>>(v: &T, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>))
    requires v.good(), v.text() is Some, inside(d, Seq::empty(), ev + rest), events_of(v, Some(id), d.s.stack, ev),
    ensures
        kids(d, r.0, r.1), inside(r.1, Seq::empty(), rest), beside(d, r.1), r.0.len() == 1,
        forall|i: int| 0 <= i < r.0.len() ==> (#[trigger] r.0[i]) is Elem && T::named(r.0[i]->Elem_0, Some(id)),
        gets::<T>(r.0, all(), |w: T| v.same(&w)),
{
    let t = v.text()->0;
    let (x, tag) = choose|x: Seq<char>, tag: LevelV| #[trigger] says(x, t) && ev == #[trigger] element_events(tag, Seq::empty(), chars(x))
        && element_name(d.s.stack.push(tag), element_of(tag)) == Some(T::place(id));
    v.law_place(id);
    bal_chars(x);
    let (f, e) = head_elem(d, tag, Seq::empty(), chars(x), rest, T::place(id));
    assert(attr_nodes(Seq::empty()) =~= Seq::<NodeV>::empty());
    let more = seq![EventV::End] + rest;
    assert(chars(x).push(EventV::End) + rest =~= chars(x) + more);
    text_inside(f, x, t, more);
    v.law_text(f, t);
    let c = Child::Elem(T::place(id), f);
    gets_one::<T>(c, |w: T| v.same(&w));
    kids_one(d, c, e);
    (seq![c], e)
}

pub proof fn text_bal<'xml, T: Value<'xml>>(v: &T, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>)
    requires v.text() is Some, events_of(v, field, stack, ev),
    ensures bal(0, ev),
{
    let t = v.text()->0;
    match field {
        None => { let x = choose|x: Seq<char>| #[trigger] says(x, t) && ev == chars(x); bal_chars(x); }
        Some(id) => {
            let (x, tag) = choose|x: Seq<char>, tag: LevelV| #[trigger] says(x, t) && ev == #[trigger] element_events(tag, Seq::empty(), chars(x))
                && element_name(stack.push(tag), element_of(tag)) == Some(T::place(id));
            bal_chars(x);
            bal_element(tag, Seq::empty(), chars(x));
        }
    }
}

// ---- texts ---------------------------------------------------------------------------------------------------------------

impl<'xml> Value<'xml> for String {
    open spec fn good(&self) -> bool { true }
    open spec fn same(&self, w: &Self) -> bool { w@ == self@ }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(t.len() == 0 ==> t =~= ""@); }
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) { take_moves(d); }
}
impl<'xml> Round<'xml> for String {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { text_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { text_kids(self, d, id, ev, rest) }
}
impl<'xml, 'a> Value<'xml> for Cow<'a, str> {
    open spec fn good(&self) -> bool { true }
    open spec fn same(&self, w: &Self) -> bool { cowv(*w).text == cowv(*self).text }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(t.len() == 0 ==> t =~= ""@); }
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) { take_moves(d); }
}
impl<'xml, 'a> Round<'xml> for Cow<'a, str> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { text_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { text_kids(self, d, id, ev, rest) }
}

// ---- values with a text of their own -----------------------------------------------------------------------------------

macro_rules! one_text {
    ($t:ty) => { verus! {
        impl<'xml> Value<'xml> for $t {
            /// it is read from the text that is written for it, and there is such a text
            open spec fn good(&self) -> bool { self.text() matches Some(t) && t.len() > 0 && <$t as Scalar>::value(t) == Some(*self) }
            open spec fn same(&self, w: &Self) -> bool { *w == *self }
            open spec fn count(&self) -> int { 1 }
            proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
            proof fn law_place(&self, id: IdV) {}
            proof fn law_absent(&self, a: Self::Accumulator) {}
            proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
            proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) { take_moves(d); }
        }
        impl<'xml> Round<'xml> for $t {
            proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { text_bal(self, field, stack, ev); }
            proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { text_kids(self, d, id, ev, rest) }
        }
    } };
}
one_text!(bool);
one_text!(char);
one_text!(i8);
one_text!(i16);
one_text!(i32);
one_text!(i64);
one_text!(isize);
one_text!(u8);
one_text!(u16);
one_text!(u32);
one_text!(u64);
one_text!(usize);
one_text!(f32);
one_text!(f64);
one_text!(IpAddr);
one_text!(DateTime<Utc>);
one_text!(NaiveDateTime);
one_text!(NaiveDate);

/// every bool and every char is
pub proof fn bools_chars(b: bool, c: char)
    ensures <bool as Value>::good(&b), <char as Value>::good(&c),
{
    reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("1"); reveal_strlit("0");
    assert("true"@.len() == 4 && "false"@.len() == 5 && "1"@.len() == 1);
    assert(seq![c][0] == c);
}

// ---- the name of a variant

impl<'xml> Value<'xml> for Choice {
    open spec fn good(&self) -> bool { true }
    open spec fn same(&self, w: &Self) -> bool { *w == *self }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) { reveal_strlit("ONE"); reveal_strlit("number two"); reveal_strlit("3"); assert("ONE"@.len() == 3 && "number two"@.len() == 10 && "3"@.len() == 1); }
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) { take_moves(d); }
}
impl<'xml> Round<'xml> for Choice {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { text_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { text_kids(self, d, id, ev, rest) }
}

// ---- a value that may be missing

/// nothing that was read is not a value
pub open spec fn blank_is_none<'xml, T: FromXml<'xml>>() -> bool { forall|a: T::Accumulator| #[trigger] a.blank() ==> a.done() is None }

pub proof fn fed_some<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, b: OptionAccumulator<T, T::Accumulator>)
    requires fed::<Option<T>>(cs, all(), b),
    ensures fed::<T>(cs, all(), b.value),
    decreases cs.len(),
{
    if cs.len() > 0 {
        assert(all::<'xml>()(cs.last()));
        let (a, e) = choose|a: OptionAccumulator<T, T::Accumulator>, e: D<'xml>| fed::<Option<T>>(cs.drop_last(), all(), a) && #[trigger] Option::<T>::reads(cs.last().at(), a, e, b);
        fed_some::<T>(cs.drop_last(), a);
        assert(T::reads(cs.last().at(), a.value, e, b.value));
    }
}

pub open spec fn opt_ok<T>(ok: spec_fn(T) -> bool) -> spec_fn(Option<T>) -> bool { |w: Option<T>| w is Some && ok(w->0) }

pub proof fn gets_some<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, ok: spec_fn(T) -> bool)
    requires gets::<T>(cs, all(), ok),
    ensures gets::<Option<T>>(cs, all(), opt_ok(ok)),
{
    assert forall|b: OptionAccumulator<T, T::Accumulator>| #[trigger] fed::<Option<T>>(cs, all(), b) implies b.done() is Some && opt_ok(ok)(b.done()->0) by { fed_some::<T>(cs, b); }
    assert forall|e: ErrV| !#[trigger] refused::<Option<T>>(cs, all(), e) by {
        if refused::<Option<T>>(cs, all(), e) {
            let (k, a) = choose|k: int, a: OptionAccumulator<T, T::Accumulator>| 0 <= k < cs.len() && all::<'xml>()(cs[k]) && fed::<Option<T>>(cs.take(k), all(), a) && #[trigger] Option::<T>::fails(cs[k].at(), a, e);
            fed_some::<T>(cs.take(k), a);
            assert(T::fails(cs[k].at(), a.value, e));
            assert(refused::<T>(cs, all(), e));
        }
    }
}

pub proof fn gets_weaker<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, goes: Goes<'xml>, ok: spec_fn(T) -> bool, ok2: spec_fn(T) -> bool)
    requires gets::<T>(cs, goes, ok), forall|w: T| #[trigger] ok(w) ==> ok2(w),
    ensures gets::<T>(cs, goes, ok2),
{
}

impl<'xml, T: Round<'xml>> Value<'xml> for Option<T> {
    open spec fn good(&self) -> bool { match *self { Some(x) => x.good(), None => blank_is_none::<T>() } }
    open spec fn same(&self, w: &Self) -> bool { match (*self, *w) { (Some(x), Some(y)) => x.same(&y), (None, None) => true, _ => false } }
    open spec fn count(&self) -> int { match *self { Some(x) => x.count(), None => 0 } }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {
        let x = self->0;
        x.law_text(d, t);
        assert forall|a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator| a.blank() && #[trigger] Self::reads(d, a, e, b) implies b.done() is Some && self.same(&b.done()->0) by {
            assert(T::reads(d, a.value, e, b.value));
        }
        assert forall|a: Self::Accumulator, e: ErrV| a.blank() implies !#[trigger] Self::fails(d, a, e) by { assert(!T::fails(d, a.value, e)); }
    }
    proof fn law_place(&self, id: IdV) { (self->0).law_place(id); }
    proof fn law_absent(&self, a: Self::Accumulator) { assert(a.value.blank()); }
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) { T::law_kept(d, a.value, e, b.value); }
}
impl<'xml, T: Round<'xml>> Round<'xml> for Option<T> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {
        match *self { Some(x) => { assert(events_of(&x, field, stack, ev)); x.law_bal(field, stack, ev); }, None => {} }
    }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) {
        let ok = |w: Self| self.same(&w);
        match *self {
            Some(x) => {
                assert(events_of(&x, Some(id), d.s.stack, ev));
                let r = x.law_kids(d, id, ev, rest);
                let g = |w: T| x.same(&w);
                gets_some::<T>(r.0, g);
                gets_weaker::<Self>(r.0, all(), opt_ok(g), ok);
                r
            },
            None => {
                assert(ev + rest =~= rest);
                assert forall|a: Self::Accumulator| #[trigger] a.blank() implies a.done() is Some && ok(a.done()->0) by { self.law_absent(a); }
                gets_none::<Self>(ok);
                (Seq::empty(), d)
            },
        }
    }
}

// ---- a boxed value

pub proof fn taken_boxed<'xml, T: FromXml<'xml>>(d: D<'xml>, ok: spec_fn(T) -> bool)
    requires taken::<T>(d, ok),
    ensures taken::<Box<T>>(d, |w: Box<T>| ok(*w)),
{
}

impl<'xml, T: Round<'xml>> Value<'xml> for Box<T> {
    open spec fn good(&self) -> bool { (**self).good() && (**self).there() && (**self).count() == 1 }
    open spec fn same(&self, w: &Self) -> bool { (**self).same(&**w) }
    open spec fn count(&self) -> int { (**self).count() }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {
        (**self).law_text(d, t);
        taken_boxed::<T>(d, |w: T| (**self).same(&w));
    }
    proof fn law_place(&self, id: IdV) { (**self).law_place(id); }
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {
        assert(events_of(&**self, field, stack, ev));
        (**self).law_empty(field, stack, ev);
    }
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {
        let (x, y) = choose|x: T::Accumulator, y: T::Accumulator| x.blank() && #[trigger] T::reads(d, x, e, y);
        T::law_kept(d, x, e, y);
    }
}
impl<'xml, T: Round<'xml>> Round<'xml> for Box<T> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {
        assert(events_of(&**self, field, stack, ev));
        (**self).law_bal(field, stack, ev);
    }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) {
        assert(events_of(&**self, Some(id), d.s.stack, ev));
        let r = (**self).law_kids(d, id, ev, rest);
        let g = |w: T| (**self).same(&w);
        let c = r.0[0];
        assert(r.0 =~= seq![c]);
        gets_one::<T>(c, g);
        taken_boxed::<T>(c.at(), g);
        gets_one::<Self>(c, |w: Box<T>| g(*w));
        gets_weaker::<Self>(r.0, all(), |w: Box<T>| g(*w), |w: Self| self.same(&w));
        r
    }
}

// ---- a list

pub open spec fn each<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, oks: Seq<spec_fn(T) -> bool>) -> bool {
    cs.len() == oks.len() && forall|i: int| 0 <= i < cs.len() ==> taken::<T>((#[trigger] cs[i]).at(), oks[i])
}
pub open spec fn list_ok<T>(oks: Seq<spec_fn(T) -> bool>) -> spec_fn(Vec<T>) -> bool {
    |w: Vec<T>| w@.len() == oks.len() && forall|i: int| 0 <= i < oks.len() ==> (#[trigger] oks[i])(w@[i])
}

pub proof fn fed_list<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, oks: Seq<spec_fn(T) -> bool>, b: Vec<T>)
    requires each::<T>(cs, oks), fed::<Vec<T>>(cs, all(), b),
    ensures list_ok(oks)(b),
    decreases cs.len(),
{
    if cs.len() > 0 {
        assert(all::<'xml>()(cs.last()));
        let (a, e) = choose|a: Vec<T>, e: D<'xml>| fed::<Vec<T>>(cs.drop_last(), all(), a) && #[trigger] Vec::<T>::reads(cs.last().at(), a, e, b);
        let (c2, o2) = (cs.drop_last(), oks.drop_last());
        assert forall|i: int| 0 <= i < c2.len() implies taken::<T>((#[trigger] c2[i]).at(), o2[i]) by { assert(c2[i] == cs[i]); }
        fed_list::<T>(c2, o2, a);
        let n = cs.len() - 1;
        assert(taken::<T>(cs[n].at(), oks[n]));
        assert(one(cs[n].at(), e, Some(b@.last())));
        assert(oks[n](b@[n]));
        assert forall|i: int| 0 <= i < oks.len() implies (#[trigger] oks[i])(b@[i]) by {
            if i < n { assert(o2[i] == oks[i]); assert(b@.drop_last()[i] == a@[i]); }
        }
    }
}

pub proof fn gets_list<'xml, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, oks: Seq<spec_fn(T) -> bool>)
    requires each::<T>(cs, oks),
    ensures gets::<Vec<T>>(cs, all(), list_ok(oks)),
{
    assert forall|b: Vec<T>| #[trigger] fed::<Vec<T>>(cs, all(), b) implies <Vec<T> as Accumulate<Vec<T>>>::done(&b) is Some && list_ok(oks)(<Vec<T> as Accumulate<Vec<T>>>::done(&b)->0) by { fed_list::<T>(cs, oks, b); }
    assert forall|e: ErrV| !#[trigger] refused::<Vec<T>>(cs, all(), e) by {
        if refused::<Vec<T>>(cs, all(), e) {
            let (k, a) = choose|k: int, a: Vec<T>| 0 <= k < cs.len() && all::<'xml>()(cs[k]) && fed::<Vec<T>>(cs.take(k), all(), a) && #[trigger] Vec::<T>::fails(cs[k].at(), a, e);
            assert(taken::<T>(cs[k].at(), oks[k]));
            assert(one_fails::<T>(cs[k].at(), e));
        }
    }
}

pub open spec fn sames<'xml, T: Value<'xml>>(s: Seq<T>) -> Seq<spec_fn(T) -> bool> { Seq::new(s.len(), |i: int| |w: T| s[i].same(&w)) }

pub proof fn list_bal<'xml, T: Round<'xml>>(s: Seq<T>, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>)
    requires list_renders(s, field, stack, ev), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).good(),
    ensures bal(0, ev),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).good() by { assert(s.drop_last()[i] == s[i]); }
        assert(s[s.len() - 1].good());
        let (a, b) = choose|a: Seq<EventV>, b: Seq<EventV>| list_renders(s.drop_last(), field, stack, a) && #[trigger] events_of(&s.last(), field, stack, b) && ev == #[trigger] (a + b);
        list_bal(s.drop_last(), field, stack, a);
        s.last().law_bal(field, stack, b);
        bal_add(0, a, 0, b);
    }
}

pub proof fn list_kids<'xml, T: Round<'xml>>(s: Seq<T>, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>))
    requires
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).good() && s[i].count() == 1,
        inside(d, Seq::empty(), ev + rest), list_renders(s, Some(id), d.s.stack, ev),
    ensures
        kids(d, r.0, r.1), inside(r.1, Seq::empty(), rest), beside(d, r.1),
        forall|i: int| 0 <= i < r.0.len() ==> (#[trigger] r.0[i]) is Elem && T::named(r.0[i]->Elem_0, Some(id)),
        each::<T>(r.0, sames(s)),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(ev + rest =~= rest);
        (Seq::empty(), d)
    } else {
        let (a, b) = choose|a: Seq<EventV>, b: Seq<EventV>| list_renders(s.drop_last(), Some(id), d.s.stack, a) && #[trigger] events_of(&s.last(), Some(id), d.s.stack, b) && ev == #[trigger] (a + b);
        let s2 = s.drop_last();
        let x = s[s.len() - 1];
        assert(x.good() && x.count() == 1);
        assert forall|i: int| 0 <= i < s2.len() implies (#[trigger] s2[i]).good() && s2[i].count() == 1 by { assert(s2[i] == s[i]); }
        assert(ev + rest =~= a + (b + rest));
        let (cs, e) = list_kids(s2, d, id, a, b + rest);
        let (c1, f) = x.law_kids(e, id, b, rest);
        let c = c1[0];
        assert(c1 =~= seq![c]);
        gets_one::<T>(c, |w: T| x.same(&w));
        kids_add(d, cs, e, c1, f);
        let r = cs + c1;
        assert forall|i: int| 0 <= i < r.len() implies taken::<T>((#[trigger] r[i]).at(), sames(s)[i]) && r[i] is Elem && T::named(r[i]->Elem_0, Some(id)) by {
            if i < cs.len() {
                assert(r[i] == cs[i]);
                assert(taken::<T>(cs[i].at(), sames(s2)[i]));
                assert(s2[i] == s[i]);
                assert(sames(s2)[i] =~= sames(s)[i]);
            } else {
                assert(r[i] == c);
                assert(sames(s)[i] =~= (|w: T| x.same(&w)));
            }
        }
        (r, f)
    }
}

impl<'xml, T: Round<'xml>> Value<'xml> for Vec<T> {
    open spec fn good(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).good() && self@[i].count() == 1 }
    open spec fn same(&self, w: &Self) -> bool { w@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).same(&w@[i]) }
    open spec fn count(&self) -> int { self@.len() as int }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {
        let (x, y) = choose|x: T::Accumulator, y: T::Accumulator| x.blank() && #[trigger] T::reads(d, x, e, y);
        T::law_kept(d, x, e, y);
    }
}
impl<'xml, T: Round<'xml>> Round<'xml> for Vec<T> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { list_bal(self@, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) {
        let r = list_kids(self@, d, id, ev, rest);
        gets_list::<T>(r.0, sames(self@));
        assert forall|w: Vec<T>| #[trigger] list_ok(sames(self@))(w) implies self.same(&w) by {
            assert forall|i: int| 0 <= i < self@.len() implies (#[trigger] self@[i]).same(&w@[i]) by { assert(sames(self@)[i](w@[i])); }
        }
        gets_weaker::<Self>(r.0, all(), list_ok(sames(self@)), |w: Self| self.same(&w));
        r
    }
}
