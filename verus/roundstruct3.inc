
// ---- fields without an element around them

/// an element that was found: it is there up to its end tag
pub open spec fn found<'a>(c: Child<'a>) -> bool {
    c matches Child::Elem(name, x) ==> handed(x) && !x.done && x.first is None && drain(x.s, x.level).0 is None && own_name(x) == name
}

pub proof fn kids_found<'a>(d: D<'a>, cs: Seq<Child<'a>>, e: D<'a>)
    requires handed(d), !d.done, kids(d, cs, e),
    ensures forall|i: int| 0 <= i < cs.len() ==> found(#[trigger] cs[i]),
    decreases cs.len(),
{
    if cs.len() > 0 {
        head_keeps(d);
        let d2 = head(d)->Child_1;
        assert(found(cs[0]));
        if d2.done { assert(false) by { next_decreases(d); } }
        kids_found(d2, cs.drop_first(), e);
        assert forall|i: int| 0 <= i < cs.len() implies found(#[trigger] cs[i]) by { if i > 0 { assert(cs[i] == cs.drop_first()[i - 1]); } }
    }
}

pub open spec fn inline_goes<'xml, A: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| c is Elem && A::named(c->Elem_0, Some(inline_a())) }
pub open spec fn inline_other<'xml, A: FromXml<'xml>>() -> Goes<'xml> { |c: Child<'xml>| !inline_goes::<A>()(c) }
type InlineAcc<'xml, A, B> = <Inline<A, B> as FromXml<'xml>>::Accumulator;

pub proof fn fed_inline<'xml, A: FromXml<'xml>, B: FromXml<'xml>>(cs: Seq<Child<'xml>>, b: InlineAcc<'xml, A, B>)
    requires
        forall|i: int| 0 <= i < cs.len() ==> found(#[trigger] cs[i]) && cs[i] is Elem,
        fed::<Inline<A, B>>(cs, all(), b),
    ensures fed::<A>(cs, inline_goes::<A>(), b.a), fed::<B>(cs, inline_other::<A>(), b.b),
    decreases cs.len(),
{
    hide(drain);
    if cs.len() > 0 {
        let s = cs.drop_last();
        let c = cs[cs.len() - 1];
        assert(all::<'xml>()(cs.last()));
        let (a, e) = choose|a: InlineAcc<'xml, A, B>, e: D<'xml>| fed::<Inline<A, B>>(s, all(), a) && #[trigger] Inline::<A, B>::reads(cs.last().at(), a, e, b);
        assert forall|i: int| 0 <= i < s.len() implies found(#[trigger] s[i]) && s[i] is Elem by { assert(s[i] == cs[i]); }
        fed_inline::<A, B>(s, a);
        assert(found(c) && c is Elem && own_name(c.at()) == c->Elem_0);
        assert(s.push(c) =~= cs);
        if A::named(own_name(c.at()), Some(inline_a())) { assert(exists|x: D<'xml>| A::reads(c.at(), a.a, x, b.a)); }
        else { assert(exists|x: D<'xml>| B::reads(c.at(), a.b, x, b.b)); }
        fed_next::<A>(s, c, inline_goes::<A>(), a.a, b.a);
        fed_next::<B>(s, c, inline_other::<A>(), a.b, b.b);
    }
}

pub proof fn refused_inline<'xml, A: Value<'xml>, B: Value<'xml>>(cs: Seq<Child<'xml>>, e: ErrV)
    requires
        forall|i: int| 0 <= i < cs.len() ==> found(#[trigger] cs[i]) && cs[i] is Elem,
        refused::<Inline<A, B>>(cs, all(), e),
    ensures refused::<A>(cs, inline_goes::<A>(), e) || refused::<B>(cs, inline_other::<A>(), e),
{
    hide(drain); hide(fed);
    let (k, a) = choose|k: int, a: InlineAcc<'xml, A, B>| 0 <= k < cs.len() && all::<'xml>()(cs[k]) && fed::<Inline<A, B>>(cs.take(k), all(), a) && #[trigger] Inline::<A, B>::fails(cs[k].at(), a, e);
    let (s, c) = (cs.take(k), cs[k]);
    assert forall|i: int| 0 <= i < s.len() implies found(#[trigger] s[i]) && s[i] is Elem by { assert(s[i] == cs[i]); }
    fed_inline::<A, B>(s, a);
    let d = c.at();
    assert(found(c) && own_name(d) == c->Elem_0);
    if A::named(own_name(d), Some(inline_a())) {
        if !A::fails(d, a.a, e) {
            let (f, b) = choose|f: D<'xml>, b: A::Accumulator| #[trigger] A::reads(d, a.a, f, b) && rest(f).0 == Some(e);
            A::law_kept(d, a.a, f, b);
        }
    } else {
        if !B::fails(d, a.b, e) {
            let (f, b) = choose|f: D<'xml>, b: B::Accumulator| #[trigger] B::reads(d, a.b, f, b) && rest(f).0 == Some(e);
            B::law_kept(d, a.b, f, b);
        }
    }
}

impl<'xml, A: Round<'xml>, B: Round<'xml>> Value<'xml> for Inline<A, B> {
    open spec fn good(&self) -> bool { self.a.good() && self.b.good() && apart::<A, B>(inline_a(), inline_b()) }
    open spec fn same(&self, w: &Self) -> bool { self.a.same(&w.a) && self.b.same(&w.b) }
    open spec fn count(&self) -> int { self.a.count() + self.b.count() }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}
impl<'xml, A: Round<'xml>, B: Round<'xml>> Round<'xml> for Inline<A, B> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {
        let (x, y) = choose|x: Seq<EventV>, y: Seq<EventV>| #[trigger] inline_is(self, stack, ev, x, y);
        self.a.law_bal(Some(inline_a()), stack, x);
        self.b.law_bal(Some(inline_b()), stack, y);
        bal_add(0, x, 0, y);
    }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) {
        hide(drain); hide(fed);
        let (x, y) = choose|x: Seq<EventV>, y: Seq<EventV>| #[trigger] inline_is(self, d.s.stack, ev, x, y);
        assert(ev + rest =~= x + (y + rest));
        let (ka, d1) = self.a.law_kids(d, inline_a(), x, y + rest);
        let (kb, d2) = self.b.law_kids(d1, inline_b(), y, rest);
        let cs = ka + kb;
        let none = Seq::<Child<'xml>>::empty();
        kids_add(d, ka, d1, kb, d2);
        kids_found(d, cs, d2);
        assert(cs =~= none + ka + kb);
        assert(cs =~= ka + kb + none);
        let (oka, okb) = (|v: A| self.a.same(&v), |v: B| self.b.same(&v));
        own::<A>(none, ka, kb, inline_goes::<A>(), oka);
        own::<B>(ka, kb, none, inline_other::<A>(), okb);
        assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]) is Elem && Self::named(cs[i]->Elem_0, Some(id)) by {
            if i < ka.len() { assert(cs[i] == ka[i]); } else { assert(cs[i] == kb[i - ka.len()]); }
        }
        assert forall|b: InlineAcc<'xml, A, B>| #[trigger] fed::<Self>(cs, all(), b) implies b.done() is Some && self.same(&b.done()->0) by { fed_inline::<A, B>(cs, b); }
        assert forall|e: ErrV| !#[trigger] refused::<Self>(cs, all(), e) by { if refused::<Self>(cs, all(), e) { refused_inline::<A, B>(cs, e); } }
        (cs, d2)
    }
}
