// ---- strings
//@impl FromXml for String
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        a is None && e == take(d).1 && (string_of(d) matches Some(c) && b matches Some(s) && s@ == c.text)
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { string_fails(d, a is Some, e) }
//@method matches
//@method deserialize
//@start
    proof { take_moves(deserializer.dv()); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@item struct CowStrAccumulator
impl Default for CowStrAccumulator<'_, '_> {
    /// derived
    fn default() -> (r: Self) ensures r.inner is None,
    {
        CowStrAccumulator { inner: None, marker: PhantomData }
    }
}
//@impl Accumulate for CowStrAccumulator
    open spec fn done(&self) -> Option<Cow<'a, str>> { self.inner }
    open spec fn blank(&self) -> bool { self.inner is None }
    proof fn blank_is(a: Self) {}
//@method try_done
//@endimpl
//@impl FromXml for Cow<'a, str>
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        a.inner is None && e == take(d).1 && (string_of(d) matches Some(c) && b.inner matches Some(s) && cowv(s).text == c.text)
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { string_fails(d, a.inner is Some, e) }
//@method matches
//@method deserialize
//@start
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl

