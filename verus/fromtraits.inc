
// ---- the traits -----------------------------------------------------------------------------------------------------

//@use instant-xml/src/lib.rs
//@trait Accumulate
    /// the value that is complete
    spec fn done(&self) -> Option<T>;
    /// nothing was read yet
    spec fn blank(&self) -> bool;
    proof fn blank_is(a: Self)
        requires call_ensures(<Self as Default>::default, (), a),
        ensures a.blank();
//@method try_done
        ensures
            r matches Ok(v) ==> self.done() == Some(v),
            r matches Err(e) ==> self.done() is None && err(e) == ErrV::Missing,
//@endimpl
//@trait FromXml
    /// the types of attributes and direct texts in it are flat
    spec fn fits() -> bool;
    /// a value is one text or attribute value
    spec fn flat() -> bool;
    /// which names belong to the type
    spec fn named(id: IdV, field: Option<IdV>) -> bool;
    /// with a as what is accumulated so far, reading from d gives b and leaves e
    spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool;
    /// with a as what is accumulated so far, reading from d is refused
    spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool;
//@method matches
        ensures r == Self::named(idv(id), opt_id(field)),
//@method deserialize
        requires
            Self::fits(), handed(old(deserializer).dv()),
            Self::flat() || (known(old(deserializer).dv()) && !old(deserializer).dv().done && exists|f: Option<IdV>| #[trigger] Self::named(element_name(old(deserializer).dv().s.stack, old(deserializer).dv().parent)->0, f)),
        ensures
            match r {
                Ok(_) => Self::reads(old(deserializer).dv(), *old(into), final(deserializer).dv(), *final(into)),
                Err(e) => Self::fails(old(deserializer).dv(), *old(into), err(e)),
            },
            steady(old(deserializer).dv(), final(deserializer).dv()),
            r is Ok ==> moved(old(deserializer).dv(), final(deserializer).dv()),
            r is Ok ==> settled(old(deserializer).dv(), final(deserializer).dv(), Self::KIND, Self::flat()),
            final(deserializer).later() == old(deserializer).later(),
//@assoc Accumulator
//@assoc KIND
//@endimpl

/// one value is read from the start to the end; None: nothing that is complete
pub open spec fn one<'xml, T: FromXml<'xml>>(d: D<'xml>, e: D<'xml>, x: Option<T>) -> bool {
    exists|b: T::Accumulator, c: T::Accumulator| b.blank() && #[trigger] T::reads(d, b, e, c) && c.done() == x
}
pub open spec fn gives_nothing<'xml, T: FromXml<'xml>>(d: D<'xml>) -> bool {
    exists|b: T::Accumulator, e: D<'xml>, c: T::Accumulator| b.blank() && #[trigger] T::reads(d, b, e, c) && c.done() is None
}
pub open spec fn one_fails<'xml, T: FromXml<'xml>>(d: D<'xml>, e: ErrV) -> bool {
    (exists|b: T::Accumulator| b.blank() && #[trigger] T::fails(d, b, e)) || (e == ErrV::Missing && gives_nothing::<T>(d))
}

//@impl Accumulate<T> for Option<T>
    open spec fn done(&self) -> Option<T> { *self }
    open spec fn blank(&self) -> bool { *self is None }
    proof fn blank_is(a: Self) {}
//@method try_done
//@endimpl

