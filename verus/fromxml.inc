//@include fromtraits.inc
// ---- scalars --------------------------------------------------------------------------------------------------------

//@use instant-xml/src/impls.rs
impl Scalar for bool {
    open spec fn value(s: Seq<char>) -> Option<bool> {
        if s == "true"@ || s == "1"@ { Some(true) } else if s == "false"@ || s == "0"@ { Some(false) } else { None }
    }
}
//@impl FromXml for bool
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for char {
    type Err = ();
    /// exactly one character
    open spec fn parsed(s: Seq<char>) -> Option<char> { if s.len() == 1 { Some(s[0]) } else { None } }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl FromText for IpAddr {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<IpAddr> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
//@item struct FromXmlStr
pub open spec fn wrapped<T: FromText>(x: Option<FromXmlStr<T>>) -> Option<T> { match x { Some(x) => Some(x.0), None => None } }
//@impl FromXml for FromXmlStr
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        parsed_reads(d, wrapped(a), e, wrapped(b)) && (a is Some <==> wrapped(a) is Some)
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { parsed_fails(d, wrapped(a), e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@fn from_xml_str
    ensures
        r is Ok && handed(old(deserializer).dv()) ==> settled(old(deserializer).dv(), final(deserializer).dv(), Kind::Scalar, true),
        match r {
            Ok(_) => parsed_reads(old(deserializer).dv(), *old(into), final(deserializer).dv(), *final(into)),
            Err(e) => parsed_fails(old(deserializer).dv(), *old(into), err(e)),
        },
        moved(old(deserializer).dv(), final(deserializer).dv()),
        final(deserializer).later() == old(deserializer).later(),
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@end
impl Scalar for char {
    open spec fn value(s: Seq<char>) -> Option<char> { <char as FromText>::parsed(s) }
}
//@impl FromXml for char
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl Scalar for IpAddr {
    open spec fn value(s: Seq<char>) -> Option<IpAddr> { <IpAddr as FromText>::parsed(s) }
}
//@impl FromXml for IpAddr
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@expand from_xml_for_number
impl FromText for i8 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<i8> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for i8 {
    open spec fn value(s: Seq<char>) -> Option<i8> { machine_of(trimmed(s)) }
}
//@impl FromXml for i8
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for i16 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<i16> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for i16 {
    open spec fn value(s: Seq<char>) -> Option<i16> { machine_of(trimmed(s)) }
}
//@impl FromXml for i16
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for i32 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<i32> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for i32 {
    open spec fn value(s: Seq<char>) -> Option<i32> { machine_of(trimmed(s)) }
}
//@impl FromXml for i32
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for i64 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<i64> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for i64 {
    open spec fn value(s: Seq<char>) -> Option<i64> { machine_of(trimmed(s)) }
}
//@impl FromXml for i64
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for isize {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<isize> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for isize {
    open spec fn value(s: Seq<char>) -> Option<isize> { machine_of(trimmed(s)) }
}
//@impl FromXml for isize
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for u8 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<u8> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for u8 {
    open spec fn value(s: Seq<char>) -> Option<u8> { machine_of(trimmed(s)) }
}
//@impl FromXml for u8
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for u16 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<u16> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for u16 {
    open spec fn value(s: Seq<char>) -> Option<u16> { machine_of(trimmed(s)) }
}
//@impl FromXml for u16
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for u32 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<u32> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for u32 {
    open spec fn value(s: Seq<char>) -> Option<u32> { machine_of(trimmed(s)) }
}
//@impl FromXml for u32
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for u64 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<u64> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for u64 {
    open spec fn value(s: Seq<char>) -> Option<u64> { machine_of(trimmed(s)) }
}
//@impl FromXml for u64
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for usize {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<usize> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for usize {
    open spec fn value(s: Seq<char>) -> Option<usize> { machine_of(trimmed(s)) }
}
//@impl FromXml for usize
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for f32 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<f32> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for f32 {
    open spec fn value(s: Seq<char>) -> Option<f32> { machine_of(trimmed(s)) }
}
//@impl FromXml for f32
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
impl FromText for f64 {
    type Err = ();
    open spec fn parsed(s: Seq<char>) -> Option<f64> { machine_of(s) }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
impl Scalar for f64 {
    open spec fn value(s: Seq<char>) -> Option<f64> { machine_of(trimmed(s)) }
}
//@impl FromXml for f64
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl

// ---- dates and times (chrono): trusted, parsers of texts
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DateTime<T> { t: T }
pub struct Utc;
#[verifier::external_body]
pub struct FixedOffset;
#[verifier::external_body]
pub struct NaiveDateTime;
#[verifier::external_body]
pub struct NaiveDate;

/// RFC 3339
pub uninterp spec fn rfc3339(s: Seq<char>) -> Option<DateTime<FixedOffset>>;
pub uninterp spec fn offset(t: DateTime<FixedOffset>) -> int;
pub uninterp spec fn utc(t: DateTime<FixedOffset>) -> DateTime<Utc>;
pub uninterp spec fn formatted<T>(s: Seq<char>, f: Seq<char>) -> Option<T>;

impl DateTime<FixedOffset> {
    #[verifier::external_body]
    pub fn parse_from_rfc3339(s: &str) -> (r: Result<DateTime<FixedOffset>, ()>)
        ensures r is Ok <==> rfc3339(s@) is Some, r matches Ok(t) ==> rfc3339(s@) == Some(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn timezone(&self) -> (r: FixedOffset)
        ensures r.seconds() == offset(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_timezone(&self, u: &Utc) -> (r: DateTime<Utc>)
        ensures r == utc(*self),
    { unimplemented!() }
}
impl FixedOffset {
    pub uninterp spec fn seconds(&self) -> int;
    #[verifier::external_body]
    pub fn utc_minus_local(&self) -> (r: i32)
        ensures r == -self.seconds(),
    { unimplemented!() }
}
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, f: &str) -> (r: Result<NaiveDateTime, ()>)
        ensures r is Ok <==> formatted::<NaiveDateTime>(s@, f@) is Some, r matches Ok(t) ==> formatted(s@, f@) == Some(t),
    { unimplemented!() }
}
impl NaiveDate {
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, f: &str) -> (r: Result<NaiveDate, ()>)
        ensures r is Ok <==> formatted::<NaiveDate>(s@, f@) is Some, r matches Ok(t) ==> formatted(s@, f@) == Some(t),
    { unimplemented!() }
}
impl Scalar for DateTime<Utc> {
    /// RFC 3339, in UTC
    open spec fn value(s: Seq<char>) -> Option<DateTime<Utc>> {
        match rfc3339(s) { Some(t) => if offset(t) == 0 { Some(utc(t)) } else { None }, None => None }
    }
}
impl Scalar for NaiveDateTime {
    open spec fn value(s: Seq<char>) -> Option<NaiveDateTime> { formatted(s, "%Y-%m-%dT%H:%M:%S%.f"@) }
}
impl Scalar for NaiveDate {
    open spec fn value(s: Seq<char>) -> Option<NaiveDate> { formatted(s, "%Y-%m-%d"@) }
}
//@impl FromXml for DateTime<Utc>
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@impl FromXml for NaiveDateTime
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@impl FromXml for NaiveDate
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { scalar_reads(d, a, e, b) }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { scalar_fails(d, a, e) }
//@method matches
//@method deserialize
//@start
    broadcast use axiom_cow_ref;
    proof { take_moves(deserializer.dv()); }
//@assoc Accumulator
//@assoc KIND
//@endimpl

//@impl FromXml for ()
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { true }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { field_only(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool { e == d && b is Some }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { false }
//@method matches
//@method deserialize
//@assoc Accumulator
//@assoc KIND
//@endimpl

//@include fromstr.inc

// ---- a value that may be missing, a boxed value, a list
//@item struct OptionAccumulator
//@impl OptionAccumulator
//@method get_mut
    ensures *r == old(self).value, *final(r) == final(self).value, final(self).marker == old(self).marker,
//@endimpl
//@impl Default for OptionAccumulator
//@method default ret=r
    ensures r.value.blank(),
//@start
    proof { assert forall|a: A| call_ensures(<A as Default>::default, (), a) implies #[trigger] a.blank() by { A::blank_is(a); } }
//@endimpl
//@impl Accumulate for OptionAccumulator
    open spec fn done(&self) -> Option<Option<T>> { Some(self.value.done()) }
    open spec fn blank(&self) -> bool { self.value.blank() }
    proof fn blank_is(a: Self) {}
//@method try_done
//@endimpl
//@impl FromXml for Option<T>
    open spec fn fits() -> bool { T::fits() }
    open spec fn flat() -> bool { T::flat() }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { T::named(id, field) }
    /// as T, and not read is None
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        T::reads(d, a.value, e, b.value)
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { T::fails(d, a.value, e) }
//@method matches
//@method deserialize
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@impl FromXml for Box<T>
    open spec fn fits() -> bool { T::fits() }
    open spec fn flat() -> bool { T::flat() }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { T::named(id, field) }
    /// one value at most
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        a is None && b is Some && one(d, e, Some(*b->0))
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { if a is Some { e == ErrV::Duplicate } else { one_fails::<T>(d, e) } }
//@method matches
//@method deserialize
//@start
    proof { assert forall|a: T::Accumulator| call_ensures(<T::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { T::Accumulator::blank_is(a); } }

//@assoc Accumulator
//@assoc KIND
//@endimpl
//@use instant-xml/src/lib.rs
//@impl Accumulate<Self> for Vec<T>
    open spec fn done(&self) -> Option<Vec<T>> { Some(*self) }
    open spec fn blank(&self) -> bool { self@.len() == 0 }
    proof fn blank_is(a: Self) {}
//@method try_done
//@endimpl
//@impl Accumulate<Cow<'a, [T]>> for Vec<T>
    open spec fn done(&self) -> Option<Cow<'a, [T]>> { Some(Cow::Owned(*self)) }
    open spec fn blank(&self) -> bool { self@.len() == 0 }
    proof fn blank_is(a: Self) {}
//@method try_done
//@endimpl
//@impl Accumulate<Self> for Option<T>
    open spec fn done(&self) -> Option<Option<T>> { Some(*self) }
    open spec fn blank(&self) -> bool { *self is None }
    proof fn blank_is(a: Self) {}
//@method try_done
//@endimpl
//@use instant-xml/src/impls.rs
pub open spec fn adds<T>(p: Seq<T>, q: Seq<T>) -> bool { q.len() > 0 && q.drop_last() =~= p }
/// every element adds one value, at the end
//@impl FromXml for Vec<T>
    open spec fn fits() -> bool { T::fits() }
    open spec fn flat() -> bool { T::flat() }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { T::named(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        adds(a@, b@) && one(d, e, Some(b@.last()))
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { one_fails::<T>(d, e) }
//@method matches
//@method deserialize
//@start
    proof {
        assert forall|a: T::Accumulator| call_ensures(<T::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { T::Accumulator::blank_is(a); }
    }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@impl FromXml for Cow<'_, [T]>
    open spec fn fits() -> bool { T::fits() }
    open spec fn flat() -> bool { T::flat() }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { T::named(id, field) }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        adds(a@, b@) && one(d, e, Some(b@.last()))
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool { one_fails::<T>(d, e) }
//@method matches
//@method deserialize
//@start
    proof {
        assert forall|a: T::Accumulator| call_ensures(<T::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { T::Accumulator::blank_is(a); }
    }
//@assoc Accumulator
//@assoc KIND
//@endimpl

//@include borrow.inc
/// the bytes of a Cow<[u8]>, and whether they are shared
pub open spec fn bytesv(c: Cow<'_, [u8]>) -> (Seq<u8>, bool) {
    match c { Cow::Borrowed(s) => (s@, true), Cow::Owned(s) => (s@, false) }
}
//@fn borrow_cow_slice_u8
    ensures
        match r {
            Ok(_) => *final(into) matches Some(x) && string_of(old(deserializer).dv()) matches Some(c) && borrows(old(deserializer).dv(), *old(into) is Some, final(deserializer).dv(), c)
                && bytesv(x) == (encode_utf8(c.text), c.borrowed),
            Err(e) => handed(old(deserializer).dv()) && !old(deserializer).dv().done ==> borrow_fails(old(deserializer).dv(), *old(into) is Some, err(e)),
        },
        moved(old(deserializer).dv(), final(deserializer).dv()),
        r is Ok && handed(old(deserializer).dv()) && !old(deserializer).dv().done ==> settled(old(deserializer).dv(), final(deserializer).dv(), Kind::Element, false),
        final(deserializer).later() == old(deserializer).later(),
//@start
    proof { take_moves(deserializer.dv()); }

// ---- documents
//@impl Deserializer
//@method deserialize
    requires T::fits(), resting(old(self).dv()),
    ensures
        r is Ok ==> drain(old(self).dv().s, old(self).dv().level) == (None::<ErrV>, final(self).dv().s) && final(self).dv().done,
        match r {
            Ok(v) => root_reads::<T>(old(self).dv(), final(self).dv(), v),
            Err(e) => root_fails::<T>(old(self).dv(), err(e)),
        },
//@start
    proof { assert forall|a: T::Accumulator| call_ensures(<T::Accumulator as Default>::default, (), a) implies #[trigger] a.blank() by { T::Accumulator::blank_is(a); } }
//@endimpl
pub open spec fn root_reads<'xml, T: FromXml<'xml>>(d: D<'xml>, e: D<'xml>, v: T) -> bool {
    &&& element_name(d.s.stack, d.parent) matches Some(id) && T::named(id, None)
    &&& exists|b: T::Accumulator, f: D<'xml>, c: T::Accumulator| b.blank() && #[trigger] T::reads(d, b, f, c) && c.done() == Some(v) && (if T::KIND is Scalar { e.done && e.first is None } else { e == f })
}
pub open spec fn root_fails<'xml, T: FromXml<'xml>>(d: D<'xml>, e: ErrV) -> bool {
    match element_name(d.s.stack, d.parent) {
        None => e == ErrV::Other,
        Some(id) => if !T::named(id, None) { e == ErrV::Value } else {
            one_fails::<T>(d, e) || (T::KIND is Scalar && exists|b: T::Accumulator, f: D<'xml>, c: T::Accumulator| b.blank() && #[trigger] T::reads(d, b, f, c))
        },
    }
}
/// what is read from a document
pub open spec fn document_read<'xml, T: FromXml<'xml>>(input: Seq<char>, r: Result<T, Error>) -> bool {
    match go(start::<'xml>(input, defaults())) {
        (Out::Node(NodeV::Open(x)), s) => match r {
            Ok(v) => exists|e: D<'xml>| root_reads::<T>(opened(x, s), e, v),
            Err(e) => root_fails::<T>(opened(x, s), err(e)),
        },
        (Out::Node(_), s) => r matches Err(e) && err(e) == ErrV::State,
        (Out::Err(e1), s) => r matches Err(e) && err(e) == e1,
        (Out::End, s) => r matches Err(e) && err(e) == ErrV::Eof,
    }
}
/// the element that was opened is there up to its own end tag
pub open spec fn well_ended<'a>(o: (Out, S<'a>)) -> bool {
    o.0 is Node && o.0->Node_0 is Open && o.1.stack.len() == 1 && drain(o.1, 1).0 is None
}
/// xmlparser: trusted
#[verifier::external_body]
pub proof fn axiom_grammar<'a>(input: Seq<char>)
    ensures grammar(tokens::<'a>(input), false),
{
}
pub proof fn root_rests<'a>(input: Seq<char>)
    ensures go(start::<'a>(input, defaults())) matches (Out::Node(NodeV::Open(x)), s) ==> resting(opened(x, s)) && s.stack.len() == 1,
{
    axiom_grammar(input);
    law_step(start::<'a>(input, defaults()));
}
//@use instant-xml/src/lib.rs
//@fn from_str
    requires T::fits(),
    ensures
        r is Ok ==> well_ended(go(start::<'xml>(input@, defaults()))),
        document_read(input@, r),
//@start
    proof { root_rests(input@); }
