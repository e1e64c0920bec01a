
// ---- a list behind a Cow -------------------------------------------------------------------------------------------------

/// the elements of a Cow
pub open spec fn slicev<'a, T>(c: Cow<'a, [T]>) -> Seq<T> where [T]: ToOwned<Owned = Vec<T>> {
    match c { Cow::Borrowed(s) => s@, Cow::Owned(v) => v@ }
}
/// std: trusted
#[verifier::external_body]
pub proof fn axiom_cow_slice<'a, T>(c: &Cow<'a, [T]>) where [T]: ToOwned<Owned = Vec<T>>
    ensures cow_ref::<[T]>(c)@ == slicev(*c),
{
}

/// it is read as a vector is
proof fn fed_cow<'xml, 'a, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, b: Vec<T>) where [T]: ToOwned<Owned = Vec<T>>
    requires fed::<Cow<'a, [T]>>(cs, all(), b),
    ensures fed::<Vec<T>>(cs, all(), b),
    decreases cs.len(),
{
    if cs.len() > 0 {
        assert(all::<'xml>()(cs.last()));
        let (a, e) = choose|a: Vec<T>, e: D<'xml>| fed::<Cow<'a, [T]>>(cs.drop_last(), all(), a) && #[trigger] Cow::<'a, [T]>::reads(cs.last().at(), a, e, b);
        fed_cow::<T>(cs.drop_last(), a);
        assert(Vec::<T>::reads(cs.last().at(), a, e, b));
    }
}
pub open spec fn cow_list_ok<'a, T>(oks: Seq<spec_fn(T) -> bool>) -> spec_fn(Cow<'a, [T]>) -> bool where [T]: ToOwned<Owned = Vec<T>> {
    |w: Cow<'a, [T]>| slicev(w).len() == oks.len() && forall|i: int| 0 <= i < oks.len() ==> (#[trigger] oks[i])(slicev(w)[i])
}
proof fn gets_cow<'xml, 'a, T: FromXml<'xml>>(cs: Seq<Child<'xml>>, oks: Seq<spec_fn(T) -> bool>) where [T]: ToOwned<Owned = Vec<T>>
    requires each::<T>(cs, oks),
    ensures gets::<Cow<'a, [T]>>(cs, all(), cow_list_ok(oks)),
{
    assert forall|b: Vec<T>| #[trigger] fed::<Cow<'a, [T]>>(cs, all(), b)
        implies <Vec<T> as Accumulate<Cow<'a, [T]>>>::done(&b) is Some && cow_list_ok(oks)(<Vec<T> as Accumulate<Cow<'a, [T]>>>::done(&b)->0) by {
        fed_cow::<T>(cs, b);
        fed_list::<T>(cs, oks, b);
    }
    assert forall|e: ErrV| !#[trigger] refused::<Cow<'a, [T]>>(cs, all(), e) by {
        if refused::<Cow<'a, [T]>>(cs, all(), e) {
            let (k, a) = choose|k: int, a: Vec<T>| 0 <= k < cs.len() && all::<'xml>()(cs[k]) && fed::<Cow<'a, [T]>>(cs.take(k), all(), a) && #[trigger] Cow::<'a, [T]>::fails(cs[k].at(), a, e);
            assert(taken::<T>(cs[k].at(), oks[k]));
            assert(one_fails::<T>(cs[k].at(), e));
        }
    }
}

impl<'xml, 'a, T: Round<'xml>> Value<'xml> for Cow<'a, [T]> where [T]: ToOwned<Owned = Vec<T>> {
    open spec fn good(&self) -> bool { forall|i: int| 0 <= i < slicev(*self).len() ==> (#[trigger] slicev(*self)[i]).good() && slicev(*self)[i].count() == 1 }
    open spec fn same(&self, w: &Self) -> bool { slicev(*w).len() == slicev(*self).len() && forall|i: int| 0 <= i < slicev(*self).len() ==> (#[trigger] slicev(*self)[i]).same(&slicev(*w)[i]) }
    open spec fn count(&self) -> int { slicev(*self).len() as int }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {
        let (x, y) = choose|x: T::Accumulator, y: T::Accumulator| x.blank() && #[trigger] T::reads(d, x, e, y);
        T::law_kept(d, x, e, y);
    }
}
impl<'xml, 'a, T: Round<'xml>> Round<'xml> for Cow<'a, [T]> where [T]: ToOwned<Owned = Vec<T>> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {
        axiom_cow_slice(self);
        list_bal(slicev(*self), field, stack, ev);
    }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) {
        axiom_cow_slice(self);
        let s = slicev(*self);
        let r = list_kids(s, d, id, ev, rest);
        gets_cow::<T>(r.0, sames(s));
        assert forall|w: Cow<'a, [T]>| #[trigger] cow_list_ok(sames(s))(w) implies self.same(&w) by {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).same(&slicev(w)[i]) by { assert(sames(s)[i](slicev(w)[i])); }
        }
        gets_weaker::<Self>(r.0, all(), cow_list_ok(sames(s)), |w: Self| self.same(&w));
        r
    }
}
