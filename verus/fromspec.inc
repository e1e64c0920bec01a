
// ---- the standard library: trusted ----------------------------------------------------------------------------------

impl vstd::std_specs::cmp::PartialEqSpecImpl for Id<'_> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { idv(*self) == idv(*other) }
}
impl PartialEq for Id<'_> {
    /// derived
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { self.ns == other.ns && self.name == other.name }
}

/// std's FromStr
pub trait FromText: Sized {
    type Err;
    spec fn parsed(s: Seq<char>) -> Option<Self>;
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>)
        ensures
            r is Ok <==> Self::parsed(s@) is Some,
            r matches Ok(v) ==> Self::parsed(s@) == Some(v);
}

/// the number or address that a text stands for
pub uninterp spec fn machine_of<T>(s: Seq<char>) -> Option<T>;

/// without white space at both ends
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;

#[verifier::external_body]
pub fn vx_trim(s: &str) -> (r: &str)
    ensures r@ == trimmed(s@),
{
    s.trim()
}

/// what a Cow refers to
pub uninterp spec fn cow_ref<'a, B: ?Sized + ToOwned>(c: &Cow<'a, B>) -> &'a B;

#[verifier::external_body]
pub broadcast proof fn axiom_cow_ref(c: &Cow<'_, str>)
    ensures (#[trigger] cow_ref::<str>(c))@ == cowv(*c).text,
{
}

pub assume_specification<'a, 'b, T: ?Sized + ToOwned> [<Cow<'a, T> as std::convert::AsRef<T>>::as_ref] (c: &'b Cow<'a, T>) -> (r: &'b T)
    ensures r == cow_ref(c);

pub trait Into2<T>: Sized {
    spec fn converted(self, t: T) -> bool;
    fn vx_into(self) -> (r: T)
        ensures self.converted(r);
}
pub fn vx_into<T, U: Into2<T>>(x: U) -> (r: T)
    ensures x.converted(r),
{
    x.vx_into()
}
impl<'a> Into2<Cow<'a, str>> for String {
    open spec fn converted(self, t: Cow<'a, str>) -> bool { t matches Cow::Owned(s) && s@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Cow<'a, str>) { self.into() }
}
impl<'a> Into2<Cow<'a, str>> for &'a str {
    open spec fn converted(self, t: Cow<'a, str>) -> bool { t matches Cow::Borrowed(s) && s@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Cow<'a, str>) { self.into() }
}

#[verifier::external_body]
pub fn vx_into_owned(c: Cow<'_, str>) -> (r: String)
    ensures r@ == cowv(c).text,
{
    c.into_owned()
}

/// Cow::default is the empty string, borrowed
#[verifier::external_body]
pub fn vx_or_default<'a>(c: Option<Cow<'a, str>>) -> (r: Cow<'a, str>)
    ensures cowv(r) == (match c { Some(x) => cowv(x), None => CowV { text: ""@, borrowed: true } }),
{
    c.unwrap_or_default()
}

// ---- specification: values ------------------------------------------------------------------------------------------

/// types that are read from a text
pub trait Scalar: Sized {
    spec fn value(s: Seq<char>) -> Option<Self>;
}

/// the names that a field of a scalar type has
pub open spec fn field_only(id: IdV, field: Option<IdV>) -> bool { field == Some(id) }

pub open spec fn opt_id(id: Option<Id>) -> Option<IdV> { match id { Some(id) => Some(idv(id)), None => None } }

/// the element's name can be resolved
pub open spec fn known(d: D) -> bool { element_name(d.s.stack, d.parent) is Some }

/// the name of the element that is read
pub open spec fn own_name(d: D) -> IdV {
    IdV { ns: match d.parent.prefix { Some(p) => resolve(d.s.stack, p)->0, None => default_of(d.s.stack) }, name: d.parent.local }
}

/// That is the name that its start tag was resolved to.
pub broadcast proof fn law_own_name<'a>(d: D<'a>)
    requires handed(d), !d.done, known(d),
    ensures element_name(d.s.stack, d.parent) == Some(#[trigger] own_name(d)),
{
}

/// one value at most; nothing is read from an empty element
pub open spec fn scalar_reads<T: Scalar>(d: D, a: Option<T>, e: D, b: Option<T>) -> bool {
    &&& a is None && e == take(d).1
    &&& match take(d).0 {
        Ok(Some(c)) => T::value(c.text) is Some && b == T::value(c.text),
        Ok(None) => b is None,
        Err(_) => false,
    }
}

pub open spec fn scalar_fails<T: Scalar>(d: D, a: Option<T>, e: ErrV) -> bool {
    if a is Some { e == ErrV::Duplicate } else {
        match take(d).0 {
            Ok(Some(c)) => T::value(c.text) is None && (e == ErrV::Value || e == ErrV::Limit),
            Ok(None) => false,
            Err(x) => e == x,
        }
    }
}

/// a string: the text, or nothing for an empty element
pub open spec fn string_of(d: D) -> Option<CowV> {
    match take(d).0 {
        Ok(Some(c)) => Some(c),
        Ok(None) => Some(CowV { text: ""@, borrowed: true }),
        Err(_) => None,
    }
}

pub open spec fn string_fails(d: D, some: bool, e: ErrV) -> bool {
    if some { e == ErrV::Duplicate } else { take(d).0 matches Err(x) && e == x }
}

/// the reader of the same element
pub open spec fn steady(d: D, e: D) -> bool { e == (D { done: e.done, first: e.first, s: e.s, ..d }) }

/// reading moves forward in the element
pub open spec fn moved(d: D, e: D) -> bool {
    &&& steady(d, e)
    &&& left_d(e) <= left_d(d)
}

/// what is left is the rest of the same element; nothing at all once it is done
pub open spec fn kept<'a>(d: D<'a>, e: D<'a>) -> bool {
    &&& e.first is None || (e.first == d.first && e.done == d.done)
    &&& if d.done { e.done && e.s == d.s } else if e.done { drain(d.s, d.level) == (None::<ErrV>, e.s) }
        else { resting(plain(e)) && e.level == d.level && e.s.stack == d.s.stack && drain(e.s, d.level) == drain(d.s, d.level) }
}

/// elements are read to their end, texts and attribute values (of types that are flat) leave the reader where it is
pub open spec fn settled<'a>(d: D<'a>, e: D<'a>, kind: Kind, flat: bool) -> bool {
    &&& kept(d, e)
    &&& kind is Element && d.first is None ==> e.done
    &&& flat && d.first is Some ==> e.s == d.s && e.done == d.done
}

/// one node that is not the end of the element, and not the start of another one
pub proof fn node_keeps<'a>(d: D<'a>)
    requires handed(d), next_of(d).0 is Node, !(next_of(d).0->Node_0 is Open),
    ensures kept(d, next_of(d).1), !d.done ==> handed(next_of(d).1), next_of(d).1.first is None,
{
    if d.first is None { law_next(d); law_step(d.s); }
}

pub proof fn end_keeps<'a>(d: D<'a>)
    requires handed(d), next_of(d).0 == Out::End,
    ensures kept(d, next_of(d).1), next_of(d).1.done,
{
    if d.first is None && !d.done { law_next(d); law_step(d.s); }
}

pub proof fn take_moves<'a>(d: D<'a>)
    ensures
        moved(d, take(d).1),
        handed(d) && take(d).0 is Ok ==> settled(d, take(d).1, Kind::Scalar, true),
    decreases left_d(d),
{
    next_decreases(d);
    let (o, d1) = next_of(d);
    if handed(d) {
        if o is Node && !(o->Node_0 is Open) { node_keeps(d); }
        if o == Out::End { end_keeps(d); }
    }
    if o is Node && o->Node_0 is Attribute { take_moves(d1); }
}

/// types that are read with FromStr
pub open spec fn parsed_reads<T: FromText>(d: D, a: Option<T>, e: D, b: Option<T>) -> bool {
    &&& a is None && e == take(d).1
    &&& match take(d).0 {
        Ok(Some(c)) => T::parsed(c.text) is Some && b == T::parsed(c.text),
        Ok(None) => b is None,
        Err(_) => false,
    }
}

pub open spec fn parsed_fails<T: FromText>(d: D, a: Option<T>, e: ErrV) -> bool {
    if a is Some { e == ErrV::Duplicate } else {
        match take(d).0 {
            Ok(Some(c)) => T::parsed(c.text) is None && e == ErrV::Value,
            Ok(None) => false,
            Err(x) => e == x,
        }
    }
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpAddr(std::net::IpAddr);
use std::net::IpAddr;

pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(s@);

/// the rest of the element is skipped
pub open spec fn rest<'a>(d: D<'a>) -> (Option<ErrV>, S<'a>) { if d.done { (None, d.s) } else { drain(d.s, d.level) } }
